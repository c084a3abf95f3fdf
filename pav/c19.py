"""C19: derived invocations are independent copies with structural equality."""
import enum, random
from . import api, factory, gen, iocheck, lower, parcheck as pc, partable, words
from .c11 import line_of
from .core import dump
from pash_annotations.datatypes.CommandInvocationPrefix import CommandInvocationPrefix
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, AggregatorSpec as A, \
    Splitter as S, TransformerFlagOptionList as T
from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum as AK

RULE = ('pairs of values: random descriptions of every comparable datatype, each compared with one built again from the same description, from '
        'the description changed in one place, and from another one (with foreign values too); histories: several mappers and aggregators built '
        'from one invocation by the parallelizers of real command lines and by random ones, one of them (or the invocation, or a list that was '
        'passed in) is changed in all its mutable parts and by the mutating operations, and all others are compared with their deep snapshots. '
        'Non-trivial: a compared pair, or a change with at least two other objects watched; counted by distinct description pair or (line, seed)')
ASSUMPTIONS = ['enumeration members are constants',
               'changed are the lists, maps, flags, options, argument strings and access kinds that invocations consist of']
REQUIRED = ['oracle_decisions', 'equal_pairs', 'one_place_pairs', 'other_pairs', 'foreign', 'victims', 'watched', 'rebuilt', 'given_lists',
            'operations'] + ['kind_' + k for k in ('flag', 'option', 'optionio', 'optionvar', 'operand', 'file', 'std', 'arg', 'fileio', 'stdio',
                                                   'access', 'initial', 'prefix', 'io', 'vars', 'mapper', 'aggregator', 'splitter', 'transformer',
                                                   'mapspec', 'aggspec', 'parallelizer', 'line')]
BATCH = 100
NAMES = ['-a', '-b', '--long', '', 'f1', 'out 1', '-', 'a']
ACCESS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']


def cases(ctx):
    rng = ctx.rng()
    for k in KINDS:
        for _ in range(ctx.n(1000, 30000)):
            yield ['eq', k, rng.randrange(1 << 40)]
    for cmd in pc.CMDS:
        for fl in gen.pairs(cmd):
            yield ['line', line_of(rng, cmd, fl), rng.randrange(1 << 30)]
            for _ in range(ctx.n(3, 12) if len(fl) < 2 else ctx.n(1, 4)):
                yield ['own', line_of(rng, cmd, fl), rng.randrange(1 << 30)]
    for _ in range(ctx.n(5000, 200000)):
        cmd = rng.choice(pc.CMDS)
        yield ['own', line_of(rng, cmd, gen.rand_flags(rng, cmd, 5)), rng.randrange(1 << 30)]


# ---- descriptions: nested tuples; two descriptions differ exactly if the values they stand for must be unequal
def name(r):
    return r.choice(NAMES)


def access(r):
    return ('access', r.choice(ACCESS))


def arg(r):
    return ('arg', name(r))


def file_or_std(r):
    return ('fileio', name(r), access(r)) if r.random() < .7 else ('stdio', r.choice(['STDIN', 'STDOUT', 'STDERR']), access(r))


def seq(r, f, n=3):
    return ('list',) + tuple(f(r) for _ in range(r.randint(0, n)))


def flag_or(opt):
    return lambda r: ('flag', name(r)) if r.random() < .5 else opt(r)


def var_or_arg(r):
    return ('var', r.randint(0, 4)) if r.random() < .5 else arg(r)


def maybe(r, f):
    return None if r.random() < .3 else f(r)


def varsbody(r):
    var = lambda r: ('var', r.randint(0, 4))
    return (name(r), seq(r, flag_or(GEN['optionvar'])), seq(r, var_or_arg), maybe(r, var), maybe(r, var),
            ('map',) + tuple((k, access(r)) for k in sorted(r.sample(range(6), r.randint(0, 4)))))


GEN = {
    'flag': lambda r: ('flag', name(r)), 'option': lambda r: ('option', name(r), name(r)),
    'optionio': lambda r: ('optionio', name(r), file_or_std(r) if r.random() < .6 else arg(r)),
    'optionvar': lambda r: ('optionvar', name(r), var_or_arg(r)),
    'operand': lambda r: ('operand', name(r)), 'file': lambda r: ('file', name(r)), 'arg': arg,
    'std': lambda r: ('std', r.choice(['STDIN', 'STDOUT', 'STDERR'])),
    'fileio': lambda r: ('fileio', name(r), access(r)), 'stdio': lambda r: ('stdio', r.choice(['STDIN', 'STDOUT', 'STDERR']), access(r)),
    'access': access,
    'initial': lambda r: ('initial', name(r), seq(r, flag_or(GEN['option'])), seq(r, GEN['operand'])),
    'prefix': lambda r: ('prefix', name(r), seq(r, flag_or(GEN['option'])), seq(r, arg)),
    'io': lambda r: ('io', name(r), seq(r, flag_or(GEN['optionio'])), seq(r, lambda r: file_or_std(r) if r.random() < .6 else arg(r)),
                     maybe(r, GEN['stdio']), maybe(r, GEN['stdio'])),
    'vars': lambda r: ('vars',) + varsbody(r), 'mapper': lambda r: ('mapper',) + varsbody(r),
    'aggregator': lambda r: ('aggregator', r.choice([k.name for k in AK])) + varsbody(r),
    'splitter': lambda r: ('splitter', r.choice(['indiv', 'rr', 'unwrap', 'consec'])),
    'transformer': lambda r: transformer(r, 2),
    'mapspec': lambda r: ('mapspec',) if r.random() < .3 else ('mapspec', name(r), transformer(r, 1), r.random() < .5),
    'aggspec': lambda r: aggspec(r),
    'parallelizer': lambda r: ('parallelizer', 'consec' if r.random() < .7 else 'indiv', GEN['mapspec'](r), aggspec(r),
                               r.choice([i.name for i in P.AdditionalInfoSplitterToMapper]), r.randint(0, 2)),
}
KINDS = list(GEN)


def transformer(r, depth):
    k = r.choice(['seq', 'empty', 'add', 'remove', 'filter', 'custom'] + ['chain'] * depth)
    if k in ('seq', 'empty'):
        return ('t_' + k,)
    if k in ('remove', 'filter'):
        return ('t_' + k, ('list',) + tuple(name(r) for _ in range(r.randint(0, 2))))
    if k == 'chain':
        return ('t_chain', seq(r, lambda r: transformer(r, depth - 1)))
    return ('t_' + k, seq(r, flag_or(GEN['optionvar'])))


def aggspec(r):
    k = r.choice(['concat', 'adjm', 'adjs', 'adjf', '2ary', 'nary', 'adjf', '2ary', 'nary'])
    if k in ('concat', 'adjm', 'adjs'):
        return ('aggspec', k)
    if r.random() < .5:
        return ('aggspec_s', k, r.choice(['agg', 'agg -a', 'other']), r.random() < .5)
    return ('aggspec_t', k, transformer(r, 1), r.random() < .5)


def build(d, r):
    """a new value for a description; r only decides the order in which maps are filled"""
    if d is None or isinstance(d, (str, bool)):
        return d
    b = lambda x: build(x, r)
    k, x = d[0], d[1:]
    if k == 'list':
        return [b(y) for y in x]
    if k == 'map':
        items = list(x)
        r.shuffle(items)
        return {n: b(a) for n, a in items}
    if k == 'var':
        return x[0]
    if k == 'access':
        return api.AccessKind(api.AccessKindEnum[x[0]])
    if k in ('std', 'stdio'):
        e = api.StdDescriptorEnum[x[0]]
        return api.StdDescriptor(e) if k == 'std' else api.StdDescriptorWithIOInfo(e, b(x[1]))
    if k == 'splitter':
        return {'indiv': S.make_splitter_indiv_files, 'rr': S.make_splitter_round_robin, 'unwrap': S.make_splitter_round_robin_with_unwrap,
                'consec': S.make_splitter_consec_chunks}[x[0]]()
    if k == 'mapspec':
        return M.make_mapper_spec_custom(x[0], b(x[1]), is_implemented=x[2]) if x else M.make_mapper_spec_seq()
    if k == 'aggspec':
        return {'concat': A.make_aggregator_spec_concatenate, 'adjm': A.make_aggregator_spec_adj_lines_merge,
                'adjs': A.make_aggregator_spec_adj_lines_seq}[x[0]]()
    if k == 'aggspec_s':
        return {'adjf': A.make_aggregator_spec_adj_lines_func_from_string_representation,
                '2ary': A.make_aggregator_spec_custom_2_ary_from_string_representation,
                'nary': A.make_aggregator_spec_custom_n_ary_from_string_representation}[x[0]](x[1], is_implemented=x[2])
    if k == 'aggspec_t':
        return {'adjf': A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers,
                '2ary': A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers,
                'nary': A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers}[x[0]](b(x[1]), is_implemented=x[2])
    if k == 'parallelizer':
        make = P.make_parallelizer_consec_chunks if x[0] == 'consec' else P.make_parallelizer_indiv_files
        return make(b(x[1]), b(x[2]), P.AdditionalInfoSplitterToMapper[x[3]], x[4])
    if k == 'aggregator':
        return Aggregator(AK[x[0]], *[b(y) for y in x[1:]])
    cls = {'flag': api.Flag, 'option': api.Option, 'optionio': api.OptionWithIO, 'optionvar': api.OptionWithIOVar, 'operand': api.Operand,
           'file': api.FileName, 'arg': api.ArgStringType, 'fileio': api.FileNameWithIOInfo, 'initial': api.CommandInvocationInitial,
           'prefix': CommandInvocationPrefix, 'io': api.CommandInvocationWithIO, 'vars': api.CommandInvocationWithIOVars, 'mapper': Mapper,
           't_seq': T.make_transformer_same_as_seq, 't_empty': T.make_transformer_empty, 't_add': T.make_transformer_add,
           't_remove': T.make_transformer_remove, 't_filter': T.make_transformer_filter, 't_custom': T.make_transformer_custom,
           't_chain': T.ChainTransformerFlagOptionList}[k]
    return cls(*[b(y) for y in x])


def subterms(d, path=()):
    yield path, d
    if isinstance(d, tuple):
        for i, y in enumerate(d):
            if i or not isinstance(y, str):
                yield from subterms(y, path + (i,))


def replace(d, path, new):
    return new if not path else d[:path[0]] + (replace(d[path[0]], path[1:], new),) + d[path[0] + 1:]


CLASSES = [{'STDIN', 'STDOUT', 'STDERR'}, set(ACCESS), {'indiv', 'rr', 'unwrap', 'consec'}, {'adjf', '2ary', 'nary'}, {k.name for k in AK},
           {i.name for i in P.AdditionalInfoSplitterToMapper}, {'agg', 'agg -a', 'other'}, set(NAMES)]


def changed(d, r):
    """the description changed in one place, or None"""
    spots = list(subterms(d))
    r.shuffle(spots)
    for path, x in spots:
        if isinstance(x, bool):
            return replace(d, path, not x)
        if isinstance(x, int):
            parent = d
            for i in path[:-1]:
                parent = parent[i]
            if parent[0] == 'var' or d[0] == 'parallelizer':
                return replace(d, path, x + 1)
            continue                               # key of a map: others may exist
        if isinstance(x, str) and path:
            c = next((c for c in CLASSES if x in c), None)
            if d[0] == 'parallelizer' and x in ('consec', 'indiv'):
                c = {'consec', 'indiv'}
            if c and path[-1]:
                return replace(d, path, r.choice(sorted(c - {x})))
        if isinstance(x, tuple) and x and x[0] == 'list':
            k = r.choice(['drop', 'dup', 'swap'])
            y = list(x[1:])
            if k == 'drop' and y:
                y.pop(r.randrange(len(y)))
            elif k == 'dup' and y:
                y.append(y[-1])
            elif len(y) > 1:
                y.reverse()
            if tuple(y) != x[1:]:
                return replace(d, path, ('list',) + tuple(y))
        if isinstance(x, tuple) and x and x[0] == 'map' and len(x) > 1:
            return replace(d, path, x[:-1])
        if isinstance(x, tuple) and x and x[0] in ('t_seq', 't_empty'):
            return replace(d, path, ('t_empty',) if x[0] == 't_seq' else ('t_seq',))
        if isinstance(x, tuple) and x and x[0] in ('t_add', 't_custom'):
            return replace(d, path, (('t_add', 't_custom')[x[0] == 't_add'],) + x[1:])
        if isinstance(x, tuple) and x and x[0] in ('t_remove', 't_filter'):
            return replace(d, path, (('t_remove', 't_filter')[x[0] == 't_remove'],) + x[1:])
    return None


def cast(d, r):
    """the same parts in a value of another kind, or None"""
    other = {'flag': 'operand', 'operand': 'arg', 'arg': 'file', 'file': 'flag', 'option': 'optionio', 'optionio': 'option', 'vars': 'mapper',
             'mapper': 'vars', 't_seq': 't_empty', 't_empty': 't_seq'}.get(d[0])
    if d[0] == 'fileio':
        return ('file', d[1])
    if d[0] == 'stdio':
        return ('std', d[1])
    if d[0] == 'aggregator':
        return ('vars',) + d[2:]
    if d[0] == 'option' or other is None:
        return None if d[0] != 'option' else ('optionio', d[1], ('arg', d[2]))
    if d[0] == 'optionio':
        return ('optionvar', d[1], d[2]) if d[2][0] == 'arg' else None
    return (other,) + d[1:]


def compare(mon, d1, d2, r, what):
    a, b = build(d1, r), build(d2, r)
    want = d1 == d2
    for x, y in ((a, b), (b, a)):
        mon.check((x == y) is want, lambda: f'equality ({what}): {d1} == {d2} is {x == y}')
        mon.check((x != y) is (not want), lambda: f'inequality ({what}): {d1} != {d2} is {x != y}')
    mon.nontrivial((d1, d2))
    return a


def eq(case, mon):
    _, kind, seed = case
    r = random.Random(seed)
    d = GEN[kind](r)
    mon.count('kind_' + kind)
    a = compare(mon, d, d, r, 'same')
    mon.check((a == a) is True, lambda: f'not equal to itself: {d}')
    mon.count('equal_pairs')
    e = changed(d, r)
    if e is not None and e != d:
        compare(mon, d, e, r, 'one place')
        mon.count('one_place_pairs')
    e = cast(d, r)
    if e is not None:
        compare(mon, d, e, r, 'other kind')
    compare(mon, d, GEN[kind](r), r, 'other')
    compare(mon, d, GEN[r.choice(KINDS)](r), r, 'other')
    mon.count('other_pairs')
    for f in (None, 0, d[-1] if isinstance(d[-1], str) else 'a', [], object()):
        mon.check((a == f) is False and (f == a) is False and (a != f) is True, lambda: f'equality with {f!r}: {d}')
    mon.count('foreign')
    before = dump(a)
    repr(a)
    mon.check(dump(a) == before, lambda: f'comparing or printing changed {d}')
    mon.sample({'value': repr(d)})


def line(case, mon):
    """what a command line gives, computed twice and with one word changed, is equal exactly if it looks equal"""
    _, text, seed = case
    r = random.Random(seed)
    other = text + r.choice([' x', '', ' -', ' f1'])
    both = []
    for t in (text, text, other):
        inv = api.parse(t)
        info, cio = api.applied(inv)
        par = api.par_info(inv)
        both.append([inv, cio] + (list(par.parallelizer_list) if par else []) + [lower.lower(cio)[0] if cio is not None else None])
    mon.count('kind_line')
    for x, y in zip(both[0] + both[0], both[1] + both[2]):
        want = dump(x) == dump(y)
        mon.check((x == y) is want and (y == x) is want, lambda: f'equality of results: {text!r}, {other!r}: {type(x).__name__} {x == y}, '
                                                                 f'parts are {"" if want else "not "}equal')
    mon.nontrivial((text, other))


# ---- independence
def shake(r, x):
    """change every mutable part of an invocation in place; returns the number of changes"""
    n = 0
    if r.random() < .4:
        try:
            v = lower.view(x)
            ins, outs = lower.streams(v, 'STREAM_INPUT'), lower.streams(v, 'STREAM_OUTPUT')
            k = r.choice(['replace', 'inputs', 'outputs', 'rm_in', 'rm_out'])
            if k == 'replace' and ins + outs:
                x.replace_var(r.choice(ins + outs), 9000)
            elif k == 'inputs':
                x.substitute_inputs_in_cmd_invocation([9100 + i for i in range(len(ins))])
            elif k == 'outputs':
                x.substitute_outputs_in_cmd_invocation([9200 + i for i in range(len(outs))])
            elif k == 'rm_in':
                x.remove_streaming_inputs()
            elif k == 'rm_out':
                x.remove_streaming_outputs()
            n += 1
        except (AssertionError, KeyError):
            pass

    def inner(o, depth=0):
        nonlocal n
        if isinstance(o, (enum.Enum, str, int)) or o is None or depth > 6:
            return
        if isinstance(o, (list, dict)):
            for y in list(o.values() if isinstance(o, dict) else o):
                inner(y, depth + 1)
            if r.random() < .5:
                o.clear()
                n += 1
            elif isinstance(o, list):
                o.append('junk')
                n += 1
            else:
                o[7777] = 'junk'
                n += 1
            return
        if hasattr(o, '__dict__'):
            for k, y in list(vars(o).items()):
                inner(y, depth + 1)
                if isinstance(y, (str, api.AccessKindEnum)):
                    if isinstance(y, api.AccessKindEnum) and api.make_stream_input() is api.make_stream_input():
                        continue        # there is one access kind of each sort, so they are not state
                    try:
                        setattr(o, k, 'JUNK' if isinstance(y, str) else r.choice([e for e in api.AccessKindEnum if e is not y]))
                        n += 1
                    except AttributeError:
                        pass
    inner(x)
    return n


def own(case, mon):
    _, text, seed = case
    r = random.Random(seed)
    st = pc.Setup(text)
    if not st.ok:
        mon.count('not_applicable')
        return
    low, names, nxt = lower.lower(st.cio, r.choice([0, 1, 5]))
    pristine = dump(low)
    v = lower.view(low)
    stream_option = any(f[0] == 'option' and f[2][0] == 'var' for f in v['flags'])
    ps = [p for p in st.parallelizers if p.are_all_parts_implemented()] + [factory.parallelizer(r, v)[0]]
    objs, given, recipe = {'invocation': low}, {}, {}
    for j, p in enumerate(ps):
        aux = p.get_info_mapper_aggregator()
        if aux and not (all(o[0] == 'var' for o in v['operands']) and not stream_option):
            continue
        for k in range(2):
            ax = [nxt + 10 + i for i in range(aux)]

            def mk(p=p, ax=ax):
                return lambda inv, a: p.get_actual_mapper(inv, nxt, nxt + 1, a)
            n1 = f'mapper {j}.{k}'
            objs[n1], given[n1 + ' streams'] = mk()(low, ax), ax
            recipe[n1] = (mk(), lambda aux=aux: [nxt + 10 + i for i in range(aux)])
            n2 = f'aggregator {j}.{k}'
            if aux:
                fa, sa, oa = ([nxt + b + i for i in range(aux)] for b in (40, 50, 60))
                objs[n2] = p.get_actual_2_ary_aggregator_with_aux(nxt + 30, fa, nxt + 31, sa, nxt + 32, oa)
                given.update({n2 + ' first': fa, n2 + ' second': sa, n2 + ' out': oa})
            else:
                ins = [nxt + 30, nxt + 31][:1 if partable.kind(p)[1] == 'adjf' else 2]
                objs[n2], given[n2 + ' streams'] = p.get_actual_aggregator(low, ins, nxt + 32), ins
                recipe[n2] = (lambda inv, a, p=p: p.get_actual_aggregator(inv, a, nxt + 32), lambda ins=tuple(ins): list(ins))
    objs = {k: o for k, o in objs.items() if o is not None}
    if len(objs) < 3:
        mon.count('nothing_built')
        return
    mon.check(dump(low) == pristine, lambda: f'building mappers and aggregators changed the invocation: {text!r}')
    for j, p in enumerate(ps):
        objs[f'parallelizer {j}'] = p
    snap = {k: dump(o) for k, o in objs.items()}
    gsnap = {k: list(g) for k, g in given.items()}
    order = [k for k in objs if not k.startswith('parallelizer')] + list(given)
    r.shuffle(order)
    done = set()
    for victim in order[:r.randint(2, 5)]:
        if victim in given:
            g = given[victim]
            g.clear() if r.random() < .5 else g.append(8000)
            mon.count('given_lists')
            done.add(victim)
        else:
            n = shake(r, objs[victim])
            mon.count('operations', n)
            done.add(victim)
        mon.count('victims')
        for k, o in objs.items():
            if k not in done:
                mon.count('watched')
                if not mon.check(dump(o) == snap[k], lambda: f'changing {victim} changed {k}: {text!r}'):
                    return
        for k, g in given.items():
            if k not in done:
                mon.check(g == gsnap[k], lambda: f'changing {victim} changed {k} (a list passed in): {text!r}')
    # built again from a new copy of the invocation, the results are what they were
    low2 = lower.lower(st.cio, min(names) if names else 1)[0]
    if dump(low2) == pristine:
        for k, (f, streams) in recipe.items():
            if k in snap:
                mon.count('rebuilt')
                mon.check(dump(f(low2, streams())) == snap[k], lambda: f'{k} built again differs after changes to {sorted(done)}: {text!r}')
    mon.nontrivial((text, seed))


def evaluate(case, mon):
    {'eq': eq, 'line': line, 'own': own}[case[0]](case, mon)
