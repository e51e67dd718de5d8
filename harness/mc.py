"""Exhaustively checked laws of the specification (spec/MC_*.tla) and the cases they put to the real code.

A model enumerates every combination of its small scope and checks, as invariants, laws that are stated independently of the
operational specification.  A VERIF_SEED-chosen part of the very same cases (all of a class of them in a thorough check) comes back
as programs, is carried out on the real code and judged by the specification like any other behaviour."""
import json
import os

import runner

# name -> (laws in words, stride of the cases in a quick check, stride in a thorough check)
LAWS = {
    'MC_Search': ('which sub-elements each field gets in each search mode, every element once or reported', 47, 23),
    'MC_Union': ('a union reads what the first alternative able to read the element reads alone, and leaves what that one leaves', 17, 3),
    'MC_Write': ('every field written by itself and in order, shared wrappers, flags only leave out (and what), nil marks, reading back', 149, 31),
    'MC_Life': ('a class completed in any order of definitions, rebuilds and uses is the same class; never early, never lost', 1, 29),
    'MC_Nest': ('data reached through wrappers and sub-models: found at its place, given once, the rest reported', 43, 29),
    'MC_Names': ('the flat naming rule over every combination of settings, declarations and kinds of field; inheritance, renaming of prefixes', 23, 7),
    'MC_Reader': ('what an operation of the reader gives, takes and leaves, in any sequence, on sub-elements and snapshots', 61, 97),
    'MC_Call': ('options reach every value however nested and no other call; computed values written, never read', 17, 23),
    'MC_Tagged': ('the alternative whose name and discriminator the next eligible element has reads it as it would alone; nobody else is asked', 11, 3),
    'MC_Raw': ('a raw field gets the element a text field would get, the whole of it, and writes the same element at the same place', 17, 5),
    'MC_Map': ('a mapping is the set of the attributes nobody took before, by their names, and is written as it is', 23, 7),
    'MC_Noise': ('comments and processing instructions anywhere: the result is that of the text alone', 17, 5),
    'MC_Err': ('the errors are exactly those of the bad and missing values, at their places, of their lines', 7, 2),
    'MC_Typing': ('what a constructor call needs and may have, and what may be assigned to, from the way the fields are written down', 41, 5),
    'MC_Lexical': ('every value of every scalar type is written in one form, which is read as the value again, and so are its other forms', 7, 1),
    'MC_Alias': ('the class is the plain class with the name spelled out and without what is marked; a validation alias only names', 23, 7),
}
# the models a property is decided with
MODELS = {
    'C03': ['MC_Search', 'MC_Nest'], 'C04': ['MC_Search', 'MC_Nest'], 'C05': ['MC_Nest'], 'C06': ['MC_Nest', 'MC_Search'], 'C07': ['MC_Search', 'MC_Union'],
    'C08': ['MC_Union'], 'C01': ['MC_Write'], 'C02': ['MC_Write'], 'C13': ['MC_Write'], 'C14': ['MC_Write'], 'C12': ['MC_Life'],
    'C19': ['MC_Reader'], 'C16': ['MC_Call'], 'C20': ['MC_Call'], 'C23': ['MC_Call'],
    'C15': ['MC_Err'], 'C17': ['MC_Noise', 'MC_Raw'], 'C18': ['MC_Raw'], 'C22': ['MC_Alias'], 'C24': ['MC_Map'],
    'C09': ['MC_Tagged'], 'C26': ['MC_Typing'], 'C25': ['MC_Lexical'], 'C10': ['MC_Names'], 'C11': ['MC_Names'], 'C21': ['MC_Names'],
}
TYPES = {'str', 'int', 'cx', 'lk1', 'lk2'}
TEXTS = {'aa', 'a2', '12', '1a', '22', '2a', '122', '12a', '1a2', '1aa', '222', '22a', '2a2', '2aa', 'k1', 'k2', '', '1', '2', '-5', 'a', 'b', 'x y', ' '} | {f't{i}' for i in range(10)}


def table(work, types=TYPES, texts=TEXTS):
    import scalars as sc
    path = os.path.join(work, 'mctable.ndjson')
    with open(path, 'w') as f:
        f.write(json.dumps(sc.tables(set(types), set(texts))) + '\n')
    return path


def renamed(ev, k):
    return {n: (f'k{k}{v}' if n in ('o', 'o2') or n == 'src' and v != 'str' else v) for n, v in ev.items()}


def programs(name, cases, per=40):
    groups, out = {}, []
    for c in cases:
        groups.setdefault(json.dumps(c['ds'], sort_keys=True), []).append(c)
    for g in groups.values():
        g.sort(key=lambda c: json.dumps(c, sort_keys=True))
    for key in sorted(groups):
        evs, n = None, 0
        for k, c in enumerate(groups[key]):
            if evs is None or n >= per or not c['ds']:
                evs, n = [{'e': 'define', 'd': d} for d in c['ds']], 0
                out.append({'id': f'{name}-{len(out)}', 'evs': evs})
            evs += [renamed(e, k) for e in c['evs']]
            n += len(c['evs'])
    return out


def run(name, tier, work, seed=1, workers=4):
    law, quick, thorough = LAWS[name]
    work = os.path.join(work, name)
    os.makedirs(work, exist_ok=True)
    env = {'TABLE_FILE': table(work), 'MC_SEED': str(seed), 'MC_STRIDE': str(quick if tier == 'quick' else thorough),
           'MC_DEEP': '0' if tier == 'quick' else '1'}
    rc, out = runner.tlc(name + '.tla', name + '.cfg', work, env=env, workers=workers)
    if rc != 0 or 'Model checking completed. No error' not in out:
        i = out.find('Error:')
        raise runner.Machinery(f'{name}: a law does not hold of the specification, or TLC failed ({rc})\n' + out[max(i, 0):][:2000])
    cases = runner.tla_lines(out, 'CASE ')
    gen, dist = runner.stats(out)
    return {'name': name, 'law': law, 'generated': gen, 'distinct': dist, 'cases': len(cases), 'raw': cases,
            'places': (runner.tla_lines(out, 'PLACES ') or [None])[0],
            'programs': [] if name in ('MC_Typing', 'MC_Lexical') else programs(name, cases)}


if __name__ == '__main__':
    import sys
    import time
    work = runner.scratch()
    t = time.time()
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', work, int(sys.argv[3]) if len(sys.argv) > 3 else 1, 8)
    print({k: v for k, v in r.items() if k not in ('programs', 'raw', 'places')}, len(r['programs']), f'{time.time() - t:.1f}s')
    json.dump(r['programs'], open('/tmp/mc/programs.json', 'w'))
    open('/tmp/p.ndjson', 'w').write(''.join(json.dumps(p) + '\n' for p in r['programs']))
