"""Which programs are worth looking at for which property: overrides of gen.BASE.
A property has one or more profiles with the share of programs each gets."""

PLAIN = dict(plain=1)
DOCS = dict(docs=(4, 8))
K = dict(prim=6, model=3, list=3, set=.5, frozenset=.3, vtuple=.7, tuple=1, nt=.6, dict=.8, td=.5, union=1, tagged=1, raw=.7)
BASE = dict(docs=(3, 6))


def k(**kw):
    """weights of the field types"""
    return dict(kinds=dict({n: 0 for n in K}, **kw))


def kmore(**kw):
    return dict(kinds=dict(K, **kw))


def mk(*ds, **kw):
    r = {}
    for d in ds:
        r.update(d)
    r.update(kw)
    return r


NS = dict(p_ns=.6, p_entns=.5, p_nsmap=.8, p_entmap=.3, p_nsattrs=.5)
QUIET = dict(p_mut=0., p_badtext=0., p_missing=0., p_noise=0.)

PROFILES = {
    'C01': [(4, mk(QUIET, docs=(1, 3), news=(4, 7), p_rt=1., flags=PLAIN, p_excl=0., p_noxml=0., p_eas=.1, p_mv=0.)),
            (1, mk(NS, QUIET, docs=(1, 3), news=(4, 7), p_rt=1., flags=PLAIN, p_vhook=0., p_shook=0.)),
            (1, mk(docs=(1, 3), news=(4, 7), p_rt=1., flags=dict(plain=2, se=1, en=1, eu=1)))],
    'C02': [(4, mk(docs=(1, 2), news=(5, 9), p_rt=0., flags=PLAIN, p_set=.4, p_excl=.02, p_comp=.2)),
            (1, mk(k(prim=4, model=6, list=1), docs=(0, 1), news=(5, 9), p_rt=0., flags=PLAIN, p_inherit=.6, p_subinst=.7, classes=(3, 6), p_root=.03, p_opt=.2, p_comp=.2)),
            (1, mk(NS, docs=(1, 2), news=(4, 8), p_rt=0., flags=PLAIN))],
    'C03': [(4, mk(k(prim=6, model=4, list=3, vtuple=1, tuple=1), docs=(8, 14), news=(0, 1), p_mut=.9, p_mode=.8, classes=(2, 4),
                   fields=(2, 5), locs=dict(none=.5, attr=.5, element=8, wrapped=1), p_dflt=.5, p_opt=.6, p_badtext=.02, p_missing=.2)),
            (1, mk(BASE, docs=(6, 10), p_mut=.9, p_mode=.8))],
    'C04': [(3, mk(kmore(dict=3, td=1), docs=(8, 12), news=(0, 1), p_samename=.5, p_mut=.8, p_dflt=.5, p_opt=.6, fields=(3, 6),
                   locs=dict(none=3, attr=4, element=6, wrapped=2), p_badtext=.02)),
            (1, mk(DOCS, p_samename=.4, p_forbid=.5, p_mut=.7)),
            (1, mk(DOCS, NS, p_mut=.7, p_samename=.3))],
    'C05': [(4, mk(docs=(6, 10), news=(0, 1), p_forbid=.7, p_mut=.9, p_dflt=.5, p_opt=.5, p_missing=.05, p_badtext=.01, classes=(1, 3))),
            (1, mk(docs=(5, 8), news=(0, 1), p_forbid=.8, p_mut=.8, p_noise=.3, **NS))],
    'C06': [(4, mk(docs=(5, 8), news=(2, 4), locs=dict(none=.5, attr=1, element=2, wrapped=8), fields=(2, 6), p_dflt=.4, p_opt=.6,
                   p_mut=.6)),
            (1, mk(NS, docs=(4, 6), news=(2, 3), locs=dict(none=.5, attr=1, element=2, wrapped=8), fields=(2, 6)))],
    'C07': [(4, mk(k(prim=2, model=1, list=6, set=1, frozenset=.7, vtuple=2, tuple=3, nt=2, dict=.2, union=.5, tagged=.5, raw=.3),
                   docs=(6, 10), news=(2, 4), p_mut=.6, p_badtext=.15, p_mode=.7)),
            (1, mk(kmore(list=6, tuple=3, nt=2), docs=(4, 8), p_forbid=.4))],
    'C08': [(4, mk(k(prim=3, model=1, list=2, vtuple=.5, tuple=.5, union=7), docs=(6, 10), news=(2, 4), classes=(3, 5), fields=(1, 3),
                   p_root=.1, p_forbid=.5, p_mut=.5, p_badtext=.12, p_missing=.2, p_tag=.6, p_inherit=.3, p_dflt=.2)),
            (1, mk(kmore(union=6), docs=(4, 8), classes=(3, 5), p_mode=.8)),
            (1, mk(k(prim=1, list=1, dict=.5, union=2), docs=(5, 8), news=(2, 4), classes=(1, 2),
                   scalars=['inf', 'ins', 'bod', 'str']))],
    'C09': [(4, mk(k(prim=3, model=1, list=2, vtuple=.5, tuple=.5, tagged=7), docs=(7, 12), news=(2, 4), p_mut=.6, p_badtext=.12,
                   p_mode=.7, fields=(1, 4))),
            (1, mk(kmore(tagged=6), docs=(4, 8), p_forbid=.4))],
    'C10': [(4, mk(NS, docs=(5, 9), news=(2, 4), p_tag=.5, p_name=.5, p_mut=.4)),
            (1, mk(NS, docs=(4, 8), news=(2, 3), classes=(2, 5), p_inherit=.4, p_alias=.3))],
    'C11': [(3, mk(docs=(3, 6), news=(1, 3), classes=(3, 6), p_inherit=.6, p_multi=.35, p_create=.4, p_generic=.25, p_skip=.3, p_ns=.5,
                   p_nsmap=.6, p_tag=.5, p_mode=.6, p_vhook=.1, p_shook=.1)),
            (1, mk(docs=(4, 6), classes=(2, 5), p_generic=.7, p_create=.5))],
    'C12': [(1, mk(p_life=1.)),
            (.4, mk(DOCS, p_selfref=.7, classes=(1, 3), p_generic=.5, p_inherit=.3))],
    'C13': [(4, mk(docs=(1, 3), news=(4, 8), p_rt=.1, flags=dict(plain=1, se=3, en=2, eu=2, mix=4), p_skip=.3, p_opt=.6, p_dflt=.5,
                   p_set=.4, p_comp=.25, p_nil=.2)),
            (1, mk(docs=(3, 6), news=(3, 5), flags=dict(se=2, en=1, eu=1, mix=3), p_skip=.3, p_opt=.7, p_root=.3))],
    'C14': [(4, mk(docs=(6, 10), news=(3, 5), p_nil=.6, p_opt=.7, p_eas=.4, p_dflt=.4, p_mut=.6, flags=dict(plain=4, se=1, en=1, mix=1))),
            (1, mk(k(prim=4, list=2, tuple=2, nt=1, model=2), docs=(6, 10), news=(3, 5), p_nil=.6, p_opt=.8, p_eas=.4, p_mut=.7,
                   scalars=['str', 'int', 'cx', 'up', 'bool']))],
    'C15': [(4, mk(docs=(7, 12), news=(0, 1), p_badtext=.35, p_missing=.2, p_mut=.6, p_hide=.3, p_mv=.3, p_idv=.2, p_alias=.25, p_opt=.2,
                   p_dflt=.15, classes=(2, 5))),
            (1, mk(docs=(6, 10), news=(0, 1), p_badtext=.3, p_forbid=.6, p_mut=.6, p_badroot=.2))],
    'C16': [(3, mk(docs=(4, 8), news=(2, 3), p_tree=.8, p_poke=.7, p_set=.5, p_badtext=.15, p_mut=.6, p_forbid=.3)),
            (1.5, mk(docs=(3, 5), news=(1, 3), p_group=1., p_tree=.5))],
    'C17': [(3, mk(docs=(5, 9), news=(2, 4), p_noise=.6, p_tree=.6, p_mut=.4, p_bytes=.4)),
            (1, mk(NS, docs=(4, 7), news=(3, 5), p_noise=.3, p_tree=.5)),
            (1, mk(kmore(raw=6), docs=(4, 7), news=(3, 5), p_noise=.5, p_tree=.5))],
    'C18': [(4, mk(kmore(raw=12, list=4), docs=(5, 9), news=(3, 5), p_tree=.5, p_poke=.3, p_forbid=.3, p_mut=.4, p_mode=.6)),
            (1, mk(NS, kmore(raw=12), docs=(4, 7), news=(3, 5), p_tree=.5))],
    'C19': [(4, mk(docs=(6, 10), news=(2, 4), p_vhook=.6, p_shook=.35, p_inherit=.4, scalars=['str', 'str', 'str', 'int'], p_mut=.6,
                   p_mode=.7, fields=(2, 5))),
            (1, mk(DOCS, NS, p_vhook=.5, p_shook=.4, p_inherit=.4))],
    'C20': [(4, mk(docs=(3, 6), news=(4, 7), p_comp=.7, flags=dict(plain=2, se=2, en=2, eu=2, mix=2), p_set=.4, p_inherit=.3)),
            (1, mk(NS, docs=(3, 6), news=(3, 6), p_comp=.7))],
    'C21': [(4, mk(p_wild=.4, docs=(0, 2), news=(0, 1), classes=(2, 4))),
            (1, mk(p_wild=.2, docs=(0, 2), news=(0, 1), classes=(1, 4), **NS)),
            (1, mk(NS, docs=(1, 2), news=(1, 1), p_generic=.3))],
    'C22': [(4, mk(docs=(5, 8), news=(3, 5), p_alias=.5, p_excl=.35, p_noxml=.4, p_dflt=.4, p_badtext=.12)),
            (1, mk(docs=(5, 8), news=(2, 4), p_alias=.5, p_excl=.3, p_noxml=.3, p_forbid=.5, p_mut=.6, p_inherit=.3))],
    'C23': [(4, mk(kmore(model=5, list=4, union=2, tagged=2, tuple=2), docs=(6, 10), news=(2, 3), p_ctx=.7, p_eas=.5, classes=(3, 5),
                   scalars=['cx', 'cx', 'cx', 'str', 'int', 'up'], p_root=.2, p_idv=.3, flags=dict(plain=1, se=2, en=2, eu=2, mix=2), p_opt=.5)),
            ],
    'C25': [(4, mk(k(prim=8, list=4, tuple=3, dict=4, td=2, nt=2, model=2), docs=(5, 8), news=(5, 8), p_comp=.3, p_opt=.4, p_dflt=.3, p_nil=.2, p_root=.2,
                   scalars=['float', 'bool', 'dec', 'date', 'dtm', 'time', 'tdl', 'uuid', 'color', 'num', 'bytes', 'url', 'inf', 'bod', 'int', 'str']))],
    'C24': [(4, mk(k(prim=2, dict=6, td=4, model=2, list=2, tuple=.5), docs=(6, 10), news=(3, 5), p_nsattrs=.5, p_ns=.5, p_nsmap=.6, p_mut=.7,
                   p_forbid=.3, p_opt=.4)),
            (1, mk(k(prim=3, dict=6, td=4, model=1), docs=(4, 8), news=(3, 5), p_dflt=.4,
                   flags=dict(plain=2, se=2, en=2, eu=1, mix=2)))],
}
SHARE = .2          # of the programs of every check are of the general kind
QUICK = {}


def parts(prop):
    if prop not in PROFILES:
        return []           # decided without programs
    ps = PROFILES[prop]
    t = sum(w for w, _ in ps)
    return [(w / t * (1 - SHARE), p) for w, p in ps] + [(SHARE, BASE)]
