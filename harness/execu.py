"""Runs abstract programs against the real library (in this process, one XML backend) and
records what was seen.  usage: execu.py PROGRAMS.ndjson OUT.ndjson   (backend: FORCE_STD_XML)"""
import copy
import json
import os
import resource
import signal
import sys
import threading
import types
import typing
import zlib

import scalars as sc

import pydantic as pd
import pydantic_core as pc
import pydantic_xml as px
from pydantic_xml import errors as pxe
from pydantic_xml.element import SearchMode
from pydantic_xml.element import native
from pydantic_xml.element.native import ElementT, XmlElement, etree
from pydantic_xml.fields import XmlFieldSerializer, XmlFieldValidator

LIMIT = 8.0         # seconds an operation may take


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang()


STD = native.etree.__name__.startswith('xml.')
MODES = {m.value: m for m in SearchMode}

# ---------------------------------------------------------------- documents


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return s.replace('"', '&quot;') if attr else s


def split(name):
    if name.startswith('{'):
        ns, tag = name[1:].split('}', 1)
        return ns, tag
    return '', name


def doc_text(doc):
    """serializes the abstract document, filling in the lines of the elements; one of several spellings of it, chosen by its content"""
    uris = []
    how = zlib.crc32(json.dumps(strip(doc), sort_keys=True).encode())
    prolog, long, cdata, style = how & 3 == 0, how >> 2 & 1, how >> 3 & 3 == 0, ('root', 'root', 'local', 'default')[how >> 5 & 3]

    def collect(n):
        if not n['tag'].startswith('#'):
            for name in [n['tag']] + [a[0] for a in n['attrs']]:
                u = split(name)[0]
                if u and u not in uris:
                    uris.append(u)
        for k in n['kids']:
            collect(k)
    collect(doc)
    pre = {u: ('xsi' if u.endswith('XMLSchema-instance') else f'n{i}') for i, u in enumerate(uris)}
    out = []
    line = [1]

    def put(s):
        out.append(s)
        line[0] += s.count('\n')

    def text(s):
        put(f'<![CDATA[{s}]]>' if cdata and s.strip() and ']]>' not in s else esc(s))

    def emit(n, top, dflt, known):
        if n['tag'] == '#comment':
            put('<!-- note -->')
        elif n['tag'] == '#pi':
            put('<?note x?>')
        else:
            n['line'] = line[0]
            tu, tag = split(n['tag'])
            decl = ''
            if style == 'root' and top:
                known = set(pre)
                decl = ''.join(f' xmlns:{p}="{u}"' for u, p in pre.items())
            if tu == dflt:
                tag = tag
            elif style == 'default' or not tu:
                decl, dflt = decl + f' xmlns="{tu}"', tu
            else:
                tag = f'{pre[tu]}:{tag}'
            need = [split(n['tag'])[0]] * (':' in tag) + [split(a)[0] for a, _ in n['attrs'] if split(a)[0]]
            for u in dict.fromkeys(need):
                if u not in known:
                    decl += f' xmlns:{pre[u]}="{u}"'
            known = known | set(need)
            s = '<' + tag + decl
            for a, v in n['attrs']:
                u, t = split(a)
                s += f' {pre[u]}:{t}="{esc(v, True)}"' if u else f' {t}="{esc(v, True)}"'
            if not n['text'] and not n['kids'] and not long:
                put(s + '/>')
            else:
                put(s + '>')
                text(n['text'])
                for k in n['kids']:
                    emit(k, False, dflt, known)
                put(f'</{tag}>')
        if not top:
            text(n['tail'])
    if prolog:
        put('<!-- before -->\n<?before x?>')
    emit(doc, True, '', set())
    if prolog:
        put('<!-- after -->')
    return ''.join(out)


def strip(n):
    return [n['tag'], n['text'], n['tail'], n['attrs'], [strip(k) for k in n['kids']]]


def tree_of(el):
    """plain tree of a native element"""
    return {
        'tag': el.tag if isinstance(el.tag, str) else '#comment',
        'text': el.text or '', 'tail': el.tail or '',
        'attrs': [[force(k), force(v)] for k, v in el.attrib.items()] if isinstance(el.tag, str) else [],
        'kids': [tree_of(k) for k in el],
    }


def force(x):
    return x.decode() if isinstance(x, bytes) else x


def build_native(t):
    el = etree.Element(t['tag'], dict((a, b) for a, b in t['attrs']))
    el.text = t['text'] or None
    el.tail = t['tail'] or None
    for k in t['kids']:
        el.append(build_native(k))
    return el


def parse_plain(text):
    """the produced document, read by the standard library (independent of the backend)"""
    import xml.etree.ElementTree as ET
    return tree_of(ET.fromstring(text))


def native_from_text(text, noise):
    if STD:
        import xml.etree.ElementTree as ET
        if noise:
            return ET.fromstring(text, parser=ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True)))
        return ET.fromstring(text)
    return etree.fromstring(text)

# ---------------------------------------------------------------- values


def from_obj(v):
    if v is None:
        return {'k': 'none'}
    if isinstance(v, pd.BaseModel):
        return {'k': 'm', 'c': type(v).__name__,
                'f': [[n, from_obj(getattr(v, n))] for n in type(v).model_fields],
                's': sorted(v.__pydantic_fields_set__)}
    if isinstance(v, ElementT):
        return {'k': 'raw', 't': tree_of(v)}
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return {'k': 'l', 't': 'nt:' + type(v).__name__, 'xs': [from_obj(x) for x in v]}
    if isinstance(v, (list, tuple, set, frozenset)):
        return {'k': 'l', 't': type(v).__name__, 'xs': [from_obj(x) for x in v]}
    if isinstance(v, dict):
        return {'k': 'd', 'kv': [[from_obj(a), from_obj(b)] for a, b in v.items()]}
    return {'k': 'p', 'v': sc.vrepr(v)}


def shape(v):
    o = from_obj(v)
    k = o['k']
    return {'none': 'NoneType', 'd': 'dict', 'raw': 'Element'}.get(k) or (o['v'].split(':')[0] if k == 'p' else o['t'] if k == 'l' else o['c'])


class PrefixedTuple(tuple):
    """Tuple[int, *Tuple[str, ...]] (the validation library has the schema but no annotation for it yet)"""
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return pc.core_schema.tuple_schema([pc.core_schema.int_schema(), pc.core_schema.str_schema()], variadic_item_index=1)


class Prog:
    def __init__(self, prog):
        self.id = prog['id']
        self.mixins = set()
        self.mod = types.ModuleType('vp_%s' % str(self.id).replace('-', '_'))
        sys.modules[self.mod.__name__] = self.mod
        d = self.mod.__dict__
        d.update({k: v for k, v in typing.__dict__.items() if not k.startswith('__')})
        d.update({k: v for k, v in sc.NS.items()})
        from typing_extensions import Annotated, NotRequired, TypedDict, Unpack
        d.update({k: v for k, v in px.__dict__.items() if not k.startswith('__')})
        d.update(Annotated=Annotated, NotRequired=NotRequired, TypedDict=TypedDict, Unpack=Unpack, ElementT=ElementT, PrefixedTuple=PrefixedTuple,
                 pd=pd, px=px, SearchMode=SearchMode, XmlFieldValidator=XmlFieldValidator,
                 XmlFieldSerializer=XmlFieldSerializer, NoXml=px.fields.NoXml, create_model=px.create_model,
                 BaseXmlModel=px.BaseXmlModel, RootXmlModel=px.RootXmlModel, _vscript=self.vscript, _sscript=self.sscript,
                 T=typing.TypeVar('T'), U=typing.TypeVar('U'), __name__=self.mod.__name__)
        self.n = 0
        self.given = []         # what custom writers passed to the writer, and copies
        self.objs = {}
        self.trees = {}
        self.nts = set()
        self.defs = {}

    def close(self):
        sys.modules.pop(self.mod.__name__, None)

    # ---- values
    def obj(self, v):
        k = v['k']
        if k == 'none':
            return None
        if k == 'p':
            return sc.to_py(None, v['v'])
        if k == 'l':
            xs = [self.obj(x) for x in v['xs']]
            t = v['t']
            if t.startswith('nt:'):
                return getattr(self.mod, t[3:])(*xs)
            return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[t](xs)
        if k == 'd':
            return {self.obj(a): self.obj(b) for a, b in v['kv']}
        if k == 'raw':
            return build_native(v['t'])
        if k == 'm':
            cls = self.cls(v['c'])
            kw = {}
            for n, x in v['f']:
                if n in v['s']:
                    kw[self.key(cls, n)] = self.obj(x)
            return cls(kw['root']) if 'root' in kw and cls.__pydantic_root_model__ else cls(**kw)
        raise AssertionError(k)

    def key(self, cls, n):
        a = cls.model_fields[n].validation_alias
        return a if isinstance(a, str) else n

    def cls(self, name):
        if name not in self.defs:
            raise NameError(name)
        return eval(name, self.mod.__dict__)

    def const(self, value):
        self.n += 1
        name = f'_c{self.n}'
        self.mod.__dict__[name] = value
        return name

    # ---- class sources
    def typ(self, t):
        k = t['k']
        if k == 'prim':
            return sc.SCALARS[t['ty']][0]
        if k == 'opt':
            return f"Optional[{self.typ(t['of'])}]"
        if k == 'list':
            return f"List[{self.typ(t['of'])}]"
        if k == 'set':
            return f"Set[{self.typ(t['of'])}]"
        if k == 'frozenset':
            return f"FrozenSet[{self.typ(t['of'])}]"
        if k == 'vtuple':
            return f"Tuple[{self.typ(t['of'])}, ...]"
        if k == 'ptuple':
            return f"PrefixedTuple"
        if k == 'tuple':
            return f"Tuple[{', '.join(self.typ(x) for x in t['of'])}]"
        if k == 'nt':
            if t['n'] not in self.nts:
                self.nts.add(t['n'])
                body = ''.join(f"    {n}: {self.typ(x)}\n" for n, x in t['of'])
                exec(f"class {t['n']}(NamedTuple):\n{body}", self.mod.__dict__)
            return t['n']
        if k == 'td':
            if t['n'] not in self.nts:
                self.nts.add(t['n'])
                body = ''.join('    %s: %s\n' % (n, self.typ(x) if req else f'NotRequired[{self.typ(x)}]')
                               for n, x, req in t['of'])
                exec(f"class {t['n']}(TypedDict):\n{body}", self.mod.__dict__)
            return t['n']
        if k == 'dict':
            return f"Dict[{self.typ(t['key'])}, {self.typ(t['of'])}]"
        if k == 'model':
            return t['c']
        if k == 'union':
            return sc.SCALARS[t['ty']][0] if t['ty'] else f"Union[{', '.join(self.typ(x) for x in t['of'])}]"
        if k == 'tagged':
            return f"Annotated[Union[{', '.join(c for c in dict.fromkeys(c for _, c in t['of']))}], pd.Field(discriminator={t['disc']!r})]"
        if k == 'raw':
            return 'ElementT'
        if k == 'var':
            return t['n']
        if k == 'any':
            return {'any': 'Any', 'cplx': 'Callable[[], int]', 'cls': 'object'}.get(t.get('which', 'any'))
        raise AssertionError(k)

    def entity(self, ent, kw, how=0):
        """source of the entity call; kw goes to the innermost call, or to the outermost one"""
        def args(pairs):
            pos = how & 1 and pairs and pairs[0][0] in ('name', 'tag')      # the first argument may be given by position
            return ', '.join(b if pos and not i else f'{a}={b}' for i, (a, b) in enumerate(pairs))
        e = ent[0]
        loc = e['loc']
        pairs = []
        if loc == 'attr':
            if e['path']:
                pairs.append(('name', repr(e['path'][0])))
            if e['ns']:
                pairs.append(('ns', repr(e['ns'][0])))
            return f"attr({args(pairs + kw)})"
        if e['ns']:
            pairs.append(('ns', repr(e['ns'][0])))
        if e['nsmap']:
            pairs.append(('nsmap', repr(dict(e['nsmap'][0]))))
        if loc == 'element':
            if e['path']:
                pairs.insert(0, ('tag', repr(e['path'][0])))
            if e['nil']:
                pairs.append(('nillable', repr(e['nil'][0])))
            return f"element({args(pairs + kw)})"
        if e['inner']:
            outer = [x for x in kw if how & 2]
            inner = self.entity(e['inner'], [x for x in kw if not how & 2], how & 1)
            return f"wrapped({e['path'][0]!r}, {'entity=' if how & 1 else ''}{inner}{', ' if pairs or outer else ''}{args(pairs + outer)})"
        return f"wrapped({e['path'][0]!r}, {args(pairs + kw)})"

    def field(self, f):
        how = zlib.crc32(json.dumps(f, sort_keys=True).encode())
        kw0 = []
        core = f['typ']['of'] if f['typ']['k'] == 'opt' else f['typ']
        if core['k'] == 'prim' and core['ty'] in ('pos', 'short') and how & 4:
            # the constraint as an argument of the field instead of a part of its type
            typ = {'pos': 'int', 'short': 'str'}[core['ty']]
            typ = f'Optional[{typ}]' if f['typ']['k'] == 'opt' else typ
            kw0.append({'pos': ('ge', '0'), 'short': ('max_length', '3')}[core['ty']])
        else:
            typ = self.typ(f['typ'])
        if how & 24 == 24 and f['ent']:
            kw0 += [('description', repr('no effect')), ('title', repr('No'))][:1 + (how >> 5 & 1)]
        if how & 192 == 192 and f['ent']:
            kw0 += [('repr', 'False'), ('examples', '[1]')]
        metas = []
        if f['avh']:
            metas.append(f"XmlFieldValidator({self.const(self.vfunc(f['avh'][0]))})")
        if f['ash']:
            metas.append(f"XmlFieldSerializer({self.const(self.sfunc(f['ash'][0]))})")
        if f['noxml']:
            metas.append('NoXml')
        ann = f.get('ann')
        if ann:
            metas.append('@')
        if metas:
            typ = f"Annotated[{typ}, {', '.join(metas)}]"
        kw = kw0
        if f['dflt']:
            v = self.obj(f['dflt'][0])
            if f.get('fac'):
                kw.append(('default_factory', self.const(lambda v=v: copy.deepcopy(v))))
            else:
                kw.append(('default', self.const(v)))
        if f.get('gen'):
            pass
        elif f['salias'] and f['salias'] == f['valias']:
            kw.append(('alias', repr(f['salias'][0])))
        else:
            if f['salias']:
                kw.append(('serialization_alias', repr(f['salias'][0])))
            if f['valias']:
                kw.append(('validation_alias', repr(f['valias'][0])))
        if f['excl']:
            kw.append(('exclude', 'True'))
        if ann:
            typ = typ[:typ.rindex('@')] + (', '.join([self.entity([e], []) for e in ann[:1]] + [self.entity([ann[1]], kw, how >> 8)]) if len(ann) > 1 and ann[2]
                                            else self.entity([ann[0]], kw if len(ann) == 1 else [], how >> 8)) + typ[typ.rindex('@') + 1:]
            init = self.entity([ann[1]], kw, how >> 8) if len(ann) > 1 and not ann[2] else ''
        elif f['ent']:
            init = self.entity(f['ent'], kw, how >> 8)
        elif kw:
            init = 'pd.Field(%s)' % ', '.join(f'{a}={b}' for a, b in kw)
        else:
            init = ''
        return typ, init

    def vfunc(self, script):
        return lambda cls, element, name: self.vscript(script, element, cls, name)

    def sfunc(self, script):
        return lambda obj, element, value, name: self.sscript(script, element, value, obj, name)

    def source(self, d):
        if d['kind'] == 'mixin':
            self.mixins.add(d['name'])
        kw = []
        if d['tag']:
            kw.append(('tag', repr(d['tag'][0])))
        if d['ns']:
            kw.append(('ns', repr(d['ns'][0])))
        if d['nsmap']:
            kw.append(('nsmap', repr(dict(d['nsmap'][0]))))
        if d['nsattrs']:
            kw.append(('ns_attrs', repr(d['nsattrs'][0])))
        if d['skip']:
            kw.append(('skip_empty', repr(d['skip'][0])))
        if d['mode']:
            kw.append(('search_mode', f"SearchMode.{d['mode'][0].upper()}"))
        conf = []
        if d['extra']:
            conf.append(('extra', repr(d['extra'][0])))
        if d['hide']:
            conf.append(('hide_input_in_errors', repr(d['hide'][0])))
        if d['raws']:
            conf.append(('arbitrary_types_allowed', 'True'))
        if d.get('agen'):
            conf.append(('alias_generator', self.const(str.upper)))
        root = d['kind'] == 'root'
        bases = list(d['bases'])
        quote = d['fwd']

        def q(t):
            return repr(t) if quote else t
        if d['route'] == 'create':
            parts = [f"__{a.replace('ns_attrs', 'ns_attrs')}__={b}" for a, b in kw]
            if bases:
                if all(b in self.mixins for b in bases):
                    bases.append('BaseXmlModel')
                parts.append('__base__=' + (bases[0] if len(bases) == 1 else f"({', '.join(bases)})"))
            elif root:
                parts.append('__base__=RootXmlModel')
            if conf:
                parts.append('__config__=pd.ConfigDict(%s)' % ', '.join(f'{a}={b}' for a, b in conf))
            parts.append('__module__=__name__')
            for f in d['fields']:
                t, init = self.field(f)
                parts.append(f"{f['name']}={q(t)}" if f.get('ann') and not init else f"{f['name']}=({q(t)}, {init or '...'})")
            return f"{d['name']} = create_model({d['name']!r}, {', '.join(parts)})\n"
        if d['args']:
            return d.get('via', d['name']) + '\n'
        if d['kind'] == 'mixin':
            bases = ['pd.BaseModel']
        elif not bases or all(b in self.mixins for b in bases):
            bases = bases + ['RootXmlModel' if root else 'BaseXmlModel']
            if root and d['fields']:
                # the root type as the argument of the base, or as an annotated field
                pass
        if d['route'] == 'param':
            bases = [f"RootXmlModel[{self.typ(d['fields'][0]['typ'])}]"]
        elif d['params'] and root:
            bases = [f"RootXmlModel[{', '.join(d['params'])}]"]
        elif d['params']:
            bases = [f"{b}[{', '.join(d['params'])}]" if self.defs.get(b, {}).get('params') else b for b in bases]
        if d['params']:
            bases = bases + [f"Generic[{', '.join(d['params'])}]"]
        head = f"class {d['name']}({', '.join(bases + [f'{a}={b}' for a, b in kw])}):\n"
        body = []
        how = zlib.crc32(json.dumps(d, sort_keys=True).encode())
        if d['kind'] == 'model' and how & 3 == 0:
            conf += [[('populate_by_name', 'True')], [('json_schema_extra', '{}'), ('ser_json_bytes', repr('utf8'))], [('str_to_lower', 'False'), ('protected_namespaces', '()')],
                     [('use_enum_values', 'False'), ('validate_default', 'False')]][how >> 2 & 3]
        if d['kind'] == 'model' and how >> 4 & 3 == 0:
            body += [['noise_a: ClassVar[int] = 3', "def noise_m(self):\n        return self.noise_a", '_noise_p: int = pd.PrivateAttr(1)'],
                     ["@property\n    def noise_p(self):\n        return 'no'", '@staticmethod\n    def noise_s():\n        return 1',
                      '@classmethod\n    def noise_c(cls):\n        return cls()', 'class Noise:\n        tag = 1'],
                     ['def model_post_init(self, context):\n        super().model_post_init(context)'],
                     ['_noise_q: str = "q"', "def __str__(self):\n        return 'no'"]][how >> 6 & 3]
        if conf:
            body.append('model_config = pd.ConfigDict(%s)' % ', '.join(f'{a}={b}' for a, b in conf))
        for f in d['fields'] if d['route'] != 'param' else []:
            t, init = self.field(f)
            body.append(f"{f['name']}: {q(t)}" + (f' = {init}' if init else ''))
        for c in d['comps']:
            t = self.typ(c['typ'])
            args = []
            if c['ent']:
                e = c['ent'][0]
                if e['path']:
                    args.append((('name' if e['loc'] == 'attr' else 'tag'), repr(e['path'][0])))
                if e['ns']:
                    args.append(('ns', repr(e['ns'][0])))
                if e['nsmap']:
                    args.append(('nsmap', repr(dict(e['nsmap'][0]))))
                if e['nil']:
                    args.append(('nillable', repr(e['nil'][0])))
            if c['salias'] and not c.get('gen'):
                args.append(('alias', repr(c['salias'][0])))
            deco = {'attr': 'computed_attr', 'element': 'computed_element'}[c['ent'][0]['loc']] if c['ent'] else 'pd.computed_field'
            body.append('@' + deco + (f"({', '.join(f'{a}={b}' for a, b in args)})" if args else ''))
            if zlib.crc32(json.dumps(c, sort_keys=True).encode()) & 1:
                body.append('@property')
            ret = f"self.{c['src'][0]}" if c['src'] else self.const(self.obj(c['const'][0]))
            body.append(f"def {c['name']}(self) -> {q(t)}:\n        return {ret}")
        for f, m in d.get('idf', []):
            body.append(f"@pd.field_validator({f!r}, mode={m!r})\n    @classmethod")
            body.append(f"def if_{d['hn']}_{f}(cls, v{', handler' if m == 'wrap' else ''}):\n        return {'handler(v)' if m == 'wrap' else 'v'}")
        for f, s in self.grouped(d['vhooks']):
            body.append(f"@xml_field_validator({', '.join(map(repr, f))})")
            f = f[0]
            body.append(f"def vh_{d['hn']}_{f}(cls, element, field_name):\n        return _vscript({self.const(s)}, element, cls, field_name)")
        for f, s in self.grouped(d['shooks']):
            body.append(f"@xml_field_serializer({', '.join(map(repr, f))})")
            f = f[0]
            body.append(f"def sh_{d['hn']}_{f}(self, element, value, field_name):\n"
                        f"        _sscript({self.const(s)}, element, value, self, field_name)")
        for i, m in enumerate(d['mvs']):
            body.append("@pd.model_validator(mode='after')")
            body.append(f"def mv_{d['hn']}_{i}(self):\n        if repr(self.{m['field']}) == repr({self.const(self.obj(m['v']))}):\n"
                        f"            raise ValueError({m['msg']!r})\n        return self")
        for i, m in enumerate(d.get('idv', [])):
            if m == 'before':
                body.append("@pd.model_validator(mode='before')\n    @classmethod")
                body.append(f"def iv_{d['hn']}_{i}(cls, data):\n        return data")
            else:
                body.append("@pd.model_validator(mode='wrap')\n    @classmethod")
                body.append(f"def iv_{d['hn']}_{i}(cls, data, handler):\n        return handler(data)")
        return head + ''.join('    ' + b + '\n' for b in body or ['pass'])

    @staticmethod
    def grouped(hooks):
        """one method for all the fields with the same script"""
        out = []
        for f, s in hooks:
            same = [g for g, t in out if t == s]
            if same:
                same[0].append(f)
            else:
                out.append(([f], s))
        return out

    # ---- hook scripts
    def vscript(self, script, el, cls, name):
        out = ''
        for s in script['steps']:
            out += (cls.__name__ if s['op'] == 'cls' else name if s['op'] == 'name' else self.step(el, s)) + ';'
        if script['ret'] == 'none':
            return None
        return out if script['ret'] == '' else script['ret']

    def step(self, el, s):
        op, a = s['op'], s['a']
        mode = MODES[s['mode']]

        def show(x):
            return '-' if x is None else x

        def text(e):
            return '!' if e is None else show(e.pop_text() or None)
        if op == 'text':
            return show(el.pop_text() or None)
        if op == 'tail':
            return show(el.pop_tail() or None)
        if op == 'attr':
            return show(el.pop_attrib(a))
        if op == 'get':
            return show(el.get_attrib(a))
        if op == 'attrs':
            r = el.pop_attributes()
            return '-' if r is None else '{' + ''.join(f'{k}={v},' for k, v in r.items()) + '}'
        if op == 'pop':
            return text(el.pop_element(a, mode))
        if op == 'raw':
            return text(el.pop_element(a, mode, remove=True))
        if op == 'find':
            return text(el.find_element(a, mode))
        if op == 'peek':
            return '!' if el.find_element(a, mode, look_behind=False, step_forward=False) is None else '@'
        if op == 'path':
            return str(len(el.find_sub_element(a.split('/'), mode)))
        if op == 'elems':
            return str(len(el.pop_elements()))
        if op == 'unbound':
            return str(len(el.get_unbound()))
        if op == 'empty':
            return 'T' if el.is_empty() else 'F'
        if op == 'step':
            if el.find_element(a, mode, look_behind=False, step_forward=False) is None:
                return '!'
            el.step_forward()
            return '.'
        if op == 'tag':
            return el.tag
        if op == 'native':
            n = el.to_native()
            return f'{n.tag}/{len(n)}/{len(n.attrib)}/{n.text or ""}'
        if op == 'sub':
            e = el.pop_element(a, mode)
            return '!' if e is None else '(' + ''.join(self.step(e, t) + ';' for t in s['sub']) + ')'
        if op in ('snap', 'swap'):
            c = el.create_snapshot()
            r = '<' + ''.join(self.step(c, t) + ';' for t in s['sub']) + '>'
            if op == 'swap':
                el.apply_snapshot(c)
            return r
        raise AssertionError(op)

    def sscript(self, script, el, value, obj, name):
        for s in script['steps']:
            v = s['v']
            if v == '$':
                v = 'None' if value is None or isinstance(value, (pd.BaseModel, list, dict, tuple, set, frozenset)) \
                    else sc.canonical(pc.to_jsonable_python(value))
            elif v in '#%@':
                v = shape(value) if v == '#' else type(obj).__name__ if v == '%' else name
            if s['op'] == 'text':
                el.set_text(v)
            elif s['op'] == 'attr':
                el.set_attribute(s['a'], v)
            elif s['op'] == 'elem':
                e = el.make_element(s['a'], None)
                e.set_text(v)
                el.append_element(e)
            elif s['op'] == 'path':
                el.find_element_or_create(s['a'], SearchMode.STRICT, None).set_text(v)
            elif s['op'] == 'attrs':
                given = {s['a']: v}
                el.set_attributes(given)
                self.given.append((given, dict(given)))
            elif s['op'] == 'empty':
                el.set_attribute(s['a'], 'T' if el.is_empty() else 'F')
            elif s['op'] == 'rm':
                e = el.make_element(s['a'], None)
                el.append_element(e)
                el.remove_element(e)
            elif s['op'] == 'deep':
                el.find_element_or_create(s['a'], SearchMode.ORDERED, None) \
                    .find_element_or_create('v1', SearchMode.UNORDERED, None).set_text(v)

    # ---- operations
    def failure(self, e):
        if isinstance(e, pd.ValidationError):
            errs, well = [], True
            for x in e.errors():
                ctx = x.get('ctx') or {}
                line, msg = ctx.get('sourceline'), ctx.get('orig')
                if line is None or msg is None:
                    errs.append({'loc': sc.loc_tokens(x['loc']), 'type': x['type'], 'line': -7, 'msg': x['msg']})
                    continue
                well = well and x['msg'] == f'[line {line}]: {msg}'
                errs.append({'loc': sc.loc_tokens(x['loc']), 'type': x['type'], 'line': line, 'msg': msg.replace(' _Element', ' Element')})
            return {'x': 'V', 'errs': errs, 'title': e.title, 'shows': 'input_value=' in str(e), 'wellmsg': well}
        if isinstance(e, AssertionError) and 'partially initialized' in str(e):
            return {'x': 'A'}
        if isinstance(e, pxe.ParsingError):
            return {'x': 'R'}
        return {'x': type(e).__name__, 'text': str(e)[:300]}

    def op_define(self, ev):
        d = ev['d']
        try:
            src = self.source(d)
            ev['src'] = src
            exec(compile(src, f'<{self.mod.__name__}>', 'exec', dont_inherit=True), self.mod.__dict__)
            self.defs[d['name']] = d
            return {'x': ''}
        except pxe.ModelFieldError as e:
            m = str(e.model_name)
            if d['route'] == 'param' and m.startswith('RootXmlModel['):
                m = d['name']           # the class RootXmlModel[...] comes first
            return {'x': 'ModelFieldError', 'model': m, 'field': str(e.field_name or 'root')}
        except Exception as e:
            return {'x': type(e).__name__, 'model': '', 'field': '', 'text': str(e)[:300]}

    def op_rebuild(self, ev):
        try:
            exec(f"{ev['c']}.model_rebuild()", self.mod.__dict__)
            return {'x': ''}
        except Exception as e:
            return {'x': type(e).__name__, 'text': str(e)[:300]}

    def op_new(self, ev):
        try:
            cls = self.cls(ev['c'])
            kw = {k: self.obj(v) for k, v in ev['kw']}
            o = (cls(*kw.values()) if cls.__pydantic_root_model__ else cls(**kw))
        except pd.ValidationError as e:
            return {'x': 'V', 'errs': sc.table_errs(e)}
        except Exception as e:
            return {'x': 'E', 'text': repr(e)[:300]}
        self.objs[ev['o']] = o
        return {'x': '', 'val': from_obj(o)}

    def op_parse(self, ev):
        cls = self.cls(ev['c'])
        text = doc_text(ev['doc'])
        ev['xml'] = text
        ctx = {'c': ev['ctx'][0]} if ev['ctx'] else None
        ctx0 = copy.deepcopy(ctx)
        pure = True
        try:
            if ev['src'] == 'str':
                o = cls.from_xml(text.encode() if ev.get('bytes') else text, context=ctx, empty_as_string=ev['eas'])
            else:
                key = ev['src']
                if key not in self.trees:
                    self.trees[key] = native_from_text(text, True)
                tree = self.trees[key]
                before = etree.tostring(tree)
                try:
                    o = cls.from_xml_tree(tree, context=ctx, empty_as_string=ev['eas'])
                finally:
                    pure = before == etree.tostring(tree)
        except Exception as e:
            return dict(self.failure(e), pure=pure and ctx == ctx0)
        self.objs[ev['o']] = o
        return {'x': '', 'val': from_obj(o), 'pure': pure and ctx == ctx0}

    def op_ser(self, ev):
        o = self.objs[ev['o']]
        before = from_obj(o)
        ev.setdefault('val', before)
        fl = ev['fl']
        kw = {}
        for a, b in (('se', 'skip_empty'), ('en', 'exclude_none'), ('eu', 'exclude_unset')):
            if fl[a] or ev.get('full'):
                kw[b] = fl[a]
        try:
            if ev.get('tree'):
                root = o.to_xml_tree(**kw)
                text = etree.tostring(root)
                for e in list(root.iter()):
                    if isinstance(e.tag, str):
                        e.text = 'poked'
                        e.attrib.clear()
                        e.set('poked', '1')
            else:
                text = o.to_xml(**kw, **ev.get('kw', {}))
        except Exception as e:
            return dict(self.failure(e), pure=from_obj(o) == before and all(a == b for a, b in self.given))
        return {'x': '', 'tree': parse_plain(text), 'pure': from_obj(o) == before and all(a == b for a, b in self.given)}

    def op_rt(self, ev):
        o = self.objs[ev['o']]
        ev.setdefault('val', from_obj(o))
        fl = ev['fl']
        try:
            text = o.to_xml(skip_empty=fl['se'], exclude_none=fl['en'], exclude_unset=fl['eu'])
            ctx = {'c': ev['ctx'][0]} if ev['ctx'] else None
            o2 = type(o).from_xml(text, context=ctx, empty_as_string=ev['eas'])
        except Exception as e:
            return dict(self.failure(e), eq=False, pure=True)
        self.objs[ev['o2']] = o2
        try:
            eq = bool(o == o2) if not ev['d_raw'] else True
        except Exception:
            eq = False
        return {'x': '', 'val': from_obj(o2), 'eq': eq, 'pure': True}

    def op_look(self, ev):
        return {'x': '', 'val': from_obj(self.objs[ev['o']])}

    def op_set(self, ev):
        setattr(self.objs[ev['o']], ev['f'], self.obj(ev['v']))
        return {'x': ''}

    def op_poke(self, ev):
        """changes every mutable part of an instance in place"""
        seen = []

        def poke(v):
            if isinstance(v, pd.BaseModel):
                for n in type(v).model_fields:
                    poke(getattr(v, n))
            elif isinstance(v, ElementT):
                v.text = 'poked'
                for k in list(v):
                    v.remove(k)
            elif isinstance(v, list):
                for x in v:
                    poke(x)
                v.extend(list(v)[:1])
            elif isinstance(v, dict):
                if v:
                    v.pop(next(iter(v)))
            elif isinstance(v, tuple):
                for x in v:
                    poke(x)
            elif isinstance(v, set):
                v.clear()
        poke(self.objs[ev['o']])
        return {'x': '', 'val': from_obj(self.objs[ev['o']])}

    def skip(self, ev):
        e = ev['e']
        if e in ('rebuild', 'new', 'parse'):
            try:
                self.cls(ev['c'])
            except NameError:
                return True
        if e == 'define':
            return False
        if e in ('ser', 'look', 'set', 'rt', 'poke'):
            return ev['o'] not in self.objs
        return False

    def undefined(self, d):
        """what the validation library says to a root model without a value"""
        try:
            f = self.cls(d['name']).model_fields['root']

            class Base(pd.RootModel):
                model_config = pd.ConfigDict(arbitrary_types_allowed=True)
            x = pd.create_model('X', __base__=Base, root=(f.annotation, pd.Field(discriminator=f.discriminator)))
            x.model_validate(pc.PydanticUndefined)
        except pd.ValidationError as e:
            return sc.table_errs(e)
        except Exception:
            pass
        return []

    def one(self, ev):
        if self.skip(ev):
            return None
        try:
            return getattr(self, 'op_' + ev['e'])(ev)
        except (Hang, MemoryError, RecursionError) as e:
            return {'x': type(e).__name__, 'text': ''}

    def timed(self, ev):
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        try:
            return self.one(ev)
        except Hang:
            return {'x': 'Hang', 'text': ''}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def run(self, evs):
        obs = [None] * len(evs)
        i = 0
        while i < len(evs):
            g = evs[i].get('g')
            if g is None:
                obs[i] = self.timed(evs[i])
                i += 1
                continue
            j = i
            while j < len(evs) and evs[j].get('g') == g:
                j += 1
            if evs[i].get('pre'):
                self.preempted(evs, obs, range(i, j))
            else:
                self.together(evs, obs, range(i, j))
            i = j
        for ev in evs:
            if ev['e'] == 'define' and ev['d']['kind'] == 'root':
                ev['d']['uerr'] = self.undefined(ev['d'])
        return obs

    def preempted(self, evs, obs, idxs):
        """the first operation of the group is stopped at chosen lines of the library and the others run meanwhile, in threads
        of their own or (re-entrantly) in the same one"""
        first, rest = idxs[0], list(idxs[1:])
        lib = os.path.dirname(px.__file__) + os.sep
        odd = {}

        def note(i, r):
            if obs[i] is None:
                obs[i] = r
            elif r != obs[i] and i not in odd:
                odd[i] = r

        def others():
            def work():
                for i in rest:
                    note(i, self.one(evs[i]))
            if evs[first].get('same'):
                old = sys.gettrace()
                sys.settrace(None)
                try:
                    work()
                finally:
                    sys.settrace(old)
                return
            t = threading.Thread(target=work, daemon=True)
            t.start()
            t.join(2)               # whoever waits for the first operation has to wait
            late.append(t)

        late = []
        count, at = [0], [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == at[0]:
                    others()
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(lib) else None

        def run(k):
            count[0], at[0] = 0, k
            sys.settrace(trace)
            try:
                r = self.one(evs[first])
            finally:
                sys.settrace(None)
            note(first, r)
            for t in late:
                t.join(LIMIT)
            del late[:]
        signal.setitimer(signal.ITIMER_REAL, LIMIT * 4)
        try:
            fresh = evs[first].get('fresh')
            run(evs[first]['pre'][0] if fresh else 0)     # stopped the first time it runs, or only counted
            n = count[0]
            for f in evs[first]['pre'][1 if fresh else 0:]:
                run(1 + f * n // 1000)
            if any(obs[i] is None for i in rest):
                others()
        except Hang:
            sys.settrace(None)
            note(first, {'x': 'Hang', 'text': ''})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        for i, r in odd.items():
            obs[i] = r
            evs[i]['odd'] = True

    def together(self, evs, obs, idxs):
        """operations of a group run at the same time, several rounds; the outcomes of all rounds must agree"""
        start = threading.Barrier(len(idxs))
        odd = {}

        def work(i):
            start.wait()
            for _ in range(evs[i].get('rounds', 8)):
                r = self.one(evs[i])
                if obs[i] is None:
                    obs[i] = r
                elif r != obs[i] and i not in odd:
                    odd[i] = r
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in idxs]
            for t in ts:
                t.start()
            for t in ts:
                t.join(LIMIT * 4)
        finally:
            sys.setswitchinterval(old)
        for i in idxs:
            if obs[i] is None and not self.skip(evs[i]):
                obs[i] = {'x': 'Hang', 'text': ''}
        for i, r in odd.items():
            obs[i] = r          # an outcome that differs from the first one: let the specification judge it
            evs[i]['odd'] = True


def load(f):
    for line in f:
        x = json.loads(line)
        if 'job' in x:
            import gen
            j = x['job']
            yield from gen.programs(j['seed'], j['n'], j['prof'], j['tag'], j['lo'])
        else:
            yield x


def main():
    sys.setrecursionlimit(10000)
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.RLIM_INFINITY))
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as out:
        for prog in load(f):
            p = Prog(prog)
            obs = p.run(prog['evs'])
            p.close()
            out.write(json.dumps({'id': prog['id'], 'evs': prog['evs'], 'obs': obs}) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
