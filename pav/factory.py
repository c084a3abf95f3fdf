"""Parallelizers put together from random specifications through the public factory functions, with what is expected of them."""
from . import api
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, AggregatorSpec as A, \
    TransformerFlagOptionList as T

FLAGS = ['-a', '-m', '-r', '-n', '--sort', '-k', '-b', '-x']


def flag_objs(view):
    return [api.Flag(x[1]) if x[0] == 'flag' else api.OptionWithIOVar(x[1], api.ArgStringType(x[2][1]) if x[2][0] == 'arg' else x[2][1])
            for x in view]


def rand_flags(rng, n=3):
    return [('flag', rng.choice(FLAGS)) if rng.random() < .6 else ('option', rng.choice(FLAGS), ('arg', rng.choice('123')))
            for _ in range(rng.randint(0, n))]


def add(l, extra):
    return l + [x for x in extra if x not in l]


def transformer(rng, names, depth=2):
    """(transformer, function on views of flag lists)"""
    k = rng.choice(['seq', 'add', 'remove', 'filter', 'empty', 'custom'] + ['chain'] * depth)
    some = lambda: [n for n in names + FLAGS if rng.random() < .4]
    if k == 'seq':
        return T.make_transformer_same_as_seq(), lambda l: l
    if k == 'empty':
        return T.make_transformer_empty(), lambda l: []
    if k == 'add':
        x = rand_flags(rng)
        return T.make_transformer_add(flag_objs(x)), lambda l: add(l, x)
    if k == 'custom':
        x = rand_flags(rng)
        return T.make_transformer_custom(flag_objs(x)), lambda l: x
    if k == 'remove':
        x = some()
        return T.make_transformer_remove(x), lambda l: [f for f in l if f[1] not in x]
    if k == 'filter':
        x = some()
        return T.make_transformer_filter(x), lambda l: [f for f in l if f[1] in x]
    ts = [transformer(rng, names, depth - 1) for _ in range(rng.randint(0, 4))]

    def chain(l):
        for _, f in ts:
            l = f(l)
        return l
    return T.ChainTransformerFlagOptionList([t for t, _ in ts]), chain


STRINGS = [(s, name, [('flag', f) for f in fl.split()]) for s, name, fl in [
    ('mymap', 'mymap', ''), ('sort -m -r', 'sort', '-m -r'), ('sort -mn', 'sort', '-m -n'), ('uniq', 'uniq', ''), ('grep -ic', 'grep', '-i -c'),
    ('sort -r -m -r', 'sort', '-r -m -r'), ('sort -bdfm  --unique -i --reverse', 'sort', '-b -d -f -m -u -i -r'), ('cat -bnsTE', 'cat', '-b -n -s -T -E'),
    ("'my map'", 'my map', ''), ('./bin/mymap', './bin/mymap', ''), ('uniq -i -c -i -c -i -c', 'uniq', '-i -c -i -c -i -c')]]


def parallelizer(rng, v):
    """(implemented parallelizer, expectation); mapper and aggregator do not depend on how the input is split"""
    names = [f[1] for f in v['flags']]
    w = {'custom': False, 'mapper_cmd': None, 'mapper_flags': v['flags'], 'aux': 0}
    stream_opt = any(f[0] == 'option' and f[2][0] == 'var' for f in v['flags'])     # a mapper which drops it would lose its stream
    k = rng.choice(['seq', 'none'] if stream_opt else ['seq', 'none', 'custom', 'custom', 'string'])
    if k == 'seq':
        ms = M.make_mapper_spec_seq()
    elif k == 'none':
        ms = None
    elif k == 'custom':
        t, f = transformer(rng, names)
        w.update(custom=True, mapper_cmd='mymap', mapper_flags=f(v['flags']))
        ms = M.make_mapper_spec_custom('mymap', t, is_implemented=True)
    else:
        s, name, fl = rng.choice(STRINGS)
        w.update(custom=True, mapper_cmd=name, mapper_flags=fl)
        ms = M.make_mapper_spec_custom_from_string_representation(s, is_implemented=True)
    k = rng.choice(['concat', 'none', 'string2', 'stringn', 'trans2', 'transn', 'transadj', 'aux'])
    if k in ('concat', 'none'):
        ag = A.make_aggregator_spec_concatenate() if k == 'concat' else None
        w.update(agg_kind='concat', agg=None)
    elif k in ('string2', 'stringn', 'aux'):
        s, name, fl = rng.choice(STRINGS)
        make = A.make_aggregator_spec_custom_n_ary_from_string_representation if k == 'stringn' else \
            A.make_aggregator_spec_custom_2_ary_from_string_representation
        ag = make(s, is_implemented=True)
        w.update(agg_kind='nary' if k == 'stringn' else '2ary', agg=('string', name, fl))
        if k == 'aux':
            w['aux'] = rng.randint(1, 3)
    else:
        t, f = transformer(rng, names)
        make = {'transn': A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers,
                'trans2': A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers,
                'transadj': A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers}[k]
        ag = make(t, is_implemented=True)
        drop = lambda l: [x for x in l if not (x[0] == 'option' and x[2][0] == 'var' and v['access'].get(x[2][1]) in
                                               ('STREAM_INPUT', 'STREAM_OUTPUT'))]
        w.update(agg_kind={'transn': 'nary', 'trans2': '2ary', 'transadj': 'adjf'}[k], agg=('flags', lambda v: f(drop(v['flags']))))
    how = rng.choice(['consec', 'consec', 'round robin', 'unwrap', 'files'])
    if how == 'files':
        return P.make_parallelizer_indiv_files(ms, ag, info_mapper_aggregator=w['aux']), w
    if how == 'round robin' and w['agg_kind'] in ('concat', 'adjf'):
        return P.make_parallelizer_round_robin(ms, ag, info_mapper_aggregator=w['aux']), w
    p = P.make_parallelizer_consec_chunks(ms, ag, info_mapper_aggregator=w['aux'])
    return P.make_parallelizer_round_robin_with_unwrap_from_other(p) if how == 'unwrap' else p, w
