"""C17: flag and option list transformers compute what they are named for."""
import random
from . import api
from .core import dump
from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T

RULE = ('random lists of 0-8 flags and options (same names with other arguments, duplicates, flags and options of one name, variables as '
        'arguments) through random transformers and chains (nested, 0-5 long), made by constructor and by factory, against a list model; '
        'arguments and transformers are dumped before and after. Non-trivial: the list was not empty and the transformer not the identity; '
        'counted by distinct case')
ASSUMPTIONS = ['an element to add occurs already if an element of the same kind, name and argument does']
REQUIRED = ['oracle_decisions', 't_seq', 't_add', 't_remove', 't_filter', 't_empty', 't_custom', 't_chain', 'long_chains', 'added_present', 'defaults']
BATCH = 300
NAMES = ['-a', '-b', '-k', '-m', '--long', '--lon', '', '-A', '-ab', 'a', 'k', '--a', 'long', '-a ', '-']


def cases(ctx):
    rng = ctx.rng()
    for _ in range(ctx.n(60000, 3000000)):
        yield ['list', rng.randrange(1 << 40)]


def element(rng):
    """(maker, view)"""
    n = rng.choice(NAMES[:rng.choice([3, 9, 15])])
    r = rng.random()
    if r < .5:
        return lambda: api.Flag(n), ('flag', n)
    a = rng.choice(['1', '2', '', '-a'])
    if r < .7:
        return lambda: api.OptionWithIOVar(n, api.ArgStringType(a)), ('optv', n, a)
    if r < .85:
        v = rng.randint(0, 2)
        return lambda: api.OptionWithIOVar(n, v), ('optv', n, v)
    return lambda: api.Option(n, a), ('opt', n, a)


def view(x):
    if isinstance(x, api.Flag):
        return ('flag', x.get_name())
    if isinstance(x, api.OptionWithIOVar):
        a = x.get_arg()
        return ('optv', x.get_name(), a.get_name() if isinstance(a, api.ArgStringType) else a)
    if isinstance(x, api.Option):
        return ('opt', x.get_name(), x.get_arg())
    return ('?', repr(x))


def elements(rng, n):
    return [element(rng) for _ in range(rng.randint(0, n))]


def objs(es):
    return [m() for m, _ in es]


def views(es):
    return [v for _, v in es]


def transformer(rng, mon, kept, base, depth=2):
    """(object, model); what is given to constructors is remembered in kept"""
    k = rng.choice(['seq', 'add', 'add', 'remove', 'filter', 'empty', 'custom'] + ['chain'] * (2 * depth))
    mon.count('t_' + k)

    def keep(x):
        kept.append((x, dump(x)))
        return x
    made = rng.random() < .5
    if k == 'seq':
        return (T.make_transformer_same_as_seq() if made else T.TransformerFlagOptionListSeq()), lambda l: l
    if k == 'empty':
        return (T.make_transformer_empty() if made else T.TransformerFlagOptionListEmpty()), lambda l: []
    if k in ('add', 'custom'):
        es = elements(rng, 4)
        if base and rng.random() < .5:
            es.insert(rng.randint(0, len(es)), rng.choice(base))
            mon.count('added_present')
        x, v = keep(objs(es)), views(es)
        if k == 'add':
            return (T.make_transformer_add if made else T.TransformerFlagOptionListAdd)(x), lambda l: l + [e for e in v if e not in l]
        return (T.make_transformer_custom if made else T.TransformerFlagOptionListCustom)(x), lambda l: list(v)
    if k in ('remove', 'filter'):
        x = keep([rng.choice(NAMES) for _ in range(rng.randint(0, 5))])
        s = list(x)
        if k == 'remove':
            return (T.make_transformer_remove if made else T.TransformerFlagOptionListRemove)(x), lambda l: [e for e in l if e[1] not in s]
        return (T.make_transformer_filter if made else T.TransformerFlagOptionListFilter)(x), lambda l: [e for e in l if e[1] in s]
    ts = [transformer(rng, mon, kept, base, depth - 1) for _ in range(rng.randint(0, 5))]
    mon.count('long_chains', int(len(ts) > 2))

    def chain(l):
        for _, f in ts:
            l = f(l)
        return l
    return T.ChainTransformerFlagOptionList(keep([t for t, _ in ts])), chain


def evaluate(case, mon):
    rng = random.Random(case[1])
    base = elements(rng, 8)
    kept = []
    t, f = transformer(rng, mon, kept, base)
    l, vl = objs(base), views(base)
    before, tbefore = dump(l), dump(t)
    want = f(vl)
    for k in range(3):
        arg = l if k < 2 else objs(base)
        got = t.get_flag_option_list_after_transformer_application(arg)
        mon.check([view(x) for x in got] == want, lambda: f'transformed list: {type(t).__name__} {tbefore} of {vl} is {[view(x) for x in got]}, '
                                                          f'expected {want} (application {k + 1})')
    mon.check(dump(l) == before, lambda: f'changed its argument: {type(t).__name__} {tbefore} of {vl}')
    mon.check(dump(t) == tbefore and all(dump(x) == d for x, d in kept), lambda: f'changed the transformer or what it was made from: {type(t).__name__} '
                                                                                f'{tbefore} of {vl}')
    other = elements(rng, 5)
    got = t.get_flag_option_list_after_transformer_application(objs(other))
    mon.check([view(x) for x in got] == f(views(other)), lambda: f'transformed second list: {type(t).__name__} {tbefore} of {views(other)} after {vl}')
    if case[1] % 50 == 0:
        mon.count('defaults')
        for g, d in ((T.return_transformer_flagoption_list_empty_if_none_else_itself, []),
                     (T.return_transformer_flagoption_list_same_as_seq_if_none_else_itself, vl)):
            r = g(None).get_flag_option_list_after_transformer_application(objs(base))
            mon.check([view(x) for x in r] == d, lambda: f'default transformer {g.__name__}: {r}')
            mon.check(g(t) is t or dump(g(t)) == tbefore, lambda: f'{g.__name__} changes a given transformer')
    if vl and want != vl:
        mon.nontrivial((tuple(vl), tbefore))
        mon.sample({'list': vl, 'transformer': repr(tbefore)[:300], 'result': want})
