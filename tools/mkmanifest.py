"""Writes MANIFEST.json"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
OTHER = {
    'C25': 'TLA+ specification of the lexical forms of scalars (Lexical.tla), laws checked by TLC on every value of a small scope; the same '
           'values written and read by the real code, both backends, at every place the specification names, plus generated programs '
           'judged by the specification of the whole reader/writer. Bounded by the scope of values. Trusted: TLC, the XML parser.',
    'C26': 'TLA+ specification of constructor signatures by declaration syntax (Typing.tla), laws checked by TLC on every class of a small '
           'scope; a part of these classes (every fifth in a thorough check) and all their calls given to mypy with the plugin and carried '
           'out. Bounded: up to two fields and two levels of wrapping and inheritance. Trusted: TLC, mypy, the plugin of pydantic it extends.',
}
NOTE = ('TLA+ specification of the whole reader/writer, checked by TLC: laws of the property exhaustively on small scopes (MC_* modules), '
        'and every operation of generated programs executed on the real code with both XML backends compared with the value, errors, '
        'document and side effects the specification computes. Bounded: small classes, documents and histories drawn from the '
        "property's profile. Trusted: pydantic's own scalar validation/printing (recorded as tables), TLC, the stdlib XML parser.")
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'/opt/venv/bin/python check.py {p["id"]}',
        'thorough_cmd': f'/opt/venv/bin/python check.py {p["id"]} --thorough',
        'technique': 'TLA+ specification model-checked with TLC; trace validation of the real code against it',
        'level': 'model_checking',
        'level_note': OTHER.get(p['id'], NOTE),
    } for p in props if p['id'] not in NA],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo. Specification: spec/*.tla; drivers: harness/*.py; see DESIGN.md.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
