"""Scalar types: the pool the generator draws from, and the tables of the validation
library (pydantic, trusted) the specification reads.  Nothing of pydantic_xml is used."""
import datetime as dt
import decimal
import enum
import typing
import uuid
from typing import Annotated, Literal, Union

import pydantic as pd
import pydantic_core as pc
from annotated_types import Ge, MaxLen


class Color(str, enum.Enum):
    red = 'red'
    blue = 'blue'


class Num(enum.IntEnum):
    one = 1
    two = 2


def _upper(v):
    return v.upper()


def _cx(v, info):
    return v if '@' in v else v + '@' + str((info.context or {}).get('c', 'no'))


def _angle(v):
    return '<' + v + '>'


Up = Annotated[str, pd.AfterValidator(_upper)]
Cx = Annotated[str, pd.AfterValidator(_cx)]
Ang = Annotated[str, pd.PlainSerializer(_angle)]
Pos = Annotated[int, Ge(0)]
Short = Annotated[str, MaxLen(3)]

# name -> (python expression, texts)
SCALARS = {
    'str':   ('str', ['', 'a', 'b', 'x y', ' pad ', 'a<b&c>"d"', 'é☃', '-', 'true', '1', '0', 'True', 'None', '007', '1.0']),
    'int':   ('int', ['0', '1', '7', '-3', '42', 'x', '1.5', '', ' 5 ', '99999999999999999999', '-99999999999999999999', '007', '+4', '1_000']),
    'float': ('float', ['0.5', '1', '1e30', '-2.25', 'x', '', '0.30000000000000004', '3.141592653589793', '1e-07', '1234567.891', '-0.0', '1e16', '100']),
    'bool':  ('bool', ['true', 'false', '1', '0', 'on', 'x', '']),
    'dec':   ('decimal.Decimal', ['1.50', '0', '1E+3', 'x', '-0.10', '0.1234567890123456789012345', '1E-7']),
    'date':  ('dt.date', ['2023-01-02', 'x', '1999-12-31']),
    'dtm':   ('dt.datetime', ['2023-01-02T03:04:05Z', '2023-01-02T03:04:05', '2023-01-02T03:04:05.123456+02:00', '2023-01-02T03:04:05.000001-05:30', 'x']),
    'time':  ('dt.time', ['03:04:05', '03:04:05.5Z', '00:00:00', 'x']),
    'tdl':   ('dt.timedelta', ['P1DT2H', 'PT0.5S', '3 days', '-P1DT1S', 'P400DT0.000001S', 'x']),
    'uuid':  ('uuid.UUID', ['12345678-1234-5678-1234-567812345678', 'x']),
    'color': ('Color', ['red', 'blue', 'green']),
    'num':   ('Num', ['1', '2', '3', 'x']),
    'lit':   ("Literal['a', 'b']", ['a', 'b', 'c', '']),
    'lk1':   ("Literal['k1']", ['k1', 'k2', 'x', 'k11', 'K1', ' k1', 'k']),
    'lk11':  ("Literal['k11']", ['k11', 'k1', 'k11 ', 'k']),
    'lK1':   ("Literal['K1']", ['K1', 'k1', 'k11']),
    'lk':    ("Literal['k']", ['k', 'k1', 'K', '']),
    'lk2':   ("Literal['k2']", ['k2', 'k1', 'x']),
    'lk3':   ("Literal['k3']", ['k3', 'k1', 'x']),
    'pos':   ('Pos', ['0', '5', '-5', 'x']),
    'short': ('Short', ['ab', 'abc', 'abcd', '']),
    'bytes': ('bytes', ['ab', '', 'é']),
    'url':   ('pd.AnyUrl', ['http://example.com/', 'http://example.com', 'x']),
    'inf':   ('Union[int, float]', ['1', '1.5', 'x']),
    'ins':   ('Union[int, str]', ['1', 'a', '']),
    'bod':   ('Union[bool, dt.date]', ['true', '2023-01-02', 'x']),
    'up':    ('Up', ['a', 'B', '']),
    'cx':    ('Cx', ['a', 'b', '']),
    'ang':   ('Ang', ['a', 'b', '']),
}
CTX_TYPES = ['cx']
CONTEXTS = ['c1', 'c2']
UNIONS = {'inf': ['int', 'float'], 'ins': ['int', 'str'], 'bod': ['bool', 'date']}   # types that are unions of scalars

NS = dict(dt=dt, decimal=decimal, uuid=uuid, Color=Color, Num=Num, Literal=Literal, Pos=Pos, Short=Short, pd=pd,
          Union=Union, Up=Up, Cx=Cx, Ang=Ang)
PY = {k: eval(e, NS) for k, (e, _) in SCALARS.items()}
ADAPT = {k: pd.TypeAdapter(t) for k, t in PY.items()}
HOLD = {k: pd.create_model('H_' + k, v=(t, None)) for k, t in PY.items()}

VALUES = {}           # (representation) -> python object


def vrepr(v):
    """deterministic name of a scalar value"""
    t = type(v)
    if isinstance(v, enum.Enum):
        s = f'{t.__name__}:{v.name}'
    elif t is str:
        s = 'str:' + v
    elif t is bytes:
        s = 'bytes:' + v.decode('latin-1')
    else:
        s = f'{t.__name__}:{v!s}'
        if t is dt.timedelta:
            s = f'timedelta:{v.total_seconds()}'
    VALUES.setdefault(s, v)
    return s


def loc_tokens(loc):
    return [('#%d' % x) if isinstance(x, int) else str(x) for x in loc]


def table_errs(e):
    return [[loc_tokens(x['loc']), x['type'], x['msg'].replace(' _Element', ' Element')] for x in e.errors()]


def outcome(adapter, v, ctx=None):
    try:
        r = adapter.validate_python(v, strict=False, context=ctx)
        return {'ok': True, 'v': {'k': 'p', 'v': vrepr(r)}, 'errs': []}
    except pd.ValidationError as e:
        return {'ok': False, 'v': {'k': 'none'}, 'errs': table_errs(e)}


def canonical(v):
    """the text of an encoded (JSON-able) scalar"""
    if v is None:
        return ''
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return str(v)


def print_scalar(ty, v):
    m = HOLD[ty].model_construct(v=v)
    return canonical(pc.to_jsonable_python(m, by_alias=False)['v'])


_pool = {}


def texts(ty):
    return SCALARS[ty][1]


def values(ty):
    """values of a type: what its good texts mean"""
    if ty not in _pool:
        out = []
        for s in texts(ty):
            try:
                v = ADAPT[ty].validate_python(s, strict=False)
            except pd.ValidationError:
                continue
            r = vrepr(v)
            if r not in out:
                out.append(r)
        if ty == 'cx':
            out = ['str:a@no', 'str:b@c1']
        _pool[ty] = out
    return _pool[ty]


def to_py(ty, rep):
    if rep.startswith('str:'):
        return rep[4:]
    if rep.startswith('int:'):
        return int(rep[4:])
    if rep not in VALUES:
        for t in SCALARS:
            values(t)
    return VALUES[rep]


def tables(types, all_texts):
    """tables for the given scalar types and texts (and every value they can have)"""
    P, N, E = {}, {}, {}
    for ty in sorted(set(types)):
        if ty == 'str':
            N['str'] = outcome(ADAPT['str'], None)
            continue
        ctxs = [None] + (CONTEXTS if ty in CTX_TYPES else [])
        reps = set(values(ty))
        for c in ctxs:
            key = ty if c is None else f'{ty}|{c}'
            P[key] = {}
            for s in sorted(set(all_texts) | set(texts(ty)) | {''}):
                o = outcome(ADAPT[ty], s, None if c is None else {'c': c})
                P[key][s] = o
                if o['ok']:
                    reps.add(o['v']['v'])
        N[ty] = outcome(ADAPT[ty], None)
        E[ty] = {r: print_scalar(ty, to_py(ty, r)) for r in sorted(reps)}
    return {'P': P, 'N': N, 'E': E, 'ctx': CTX_TYPES}
