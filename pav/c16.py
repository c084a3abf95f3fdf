"""C16: offered parallelizers are admissible and consistently inferred."""
import copy
import random
from . import api, c13, factory, gen, lower, partable, parcheck as pc, words
from .core import dump
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, AggregatorSpec as A, Splitter as S
from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import AdditionalInfoSplitterToMapper as Info

RULE = ('random parallelizability information (0-5 parallelizers of all splitters, mappers and aggregators; stated as list or appended; '
        'commutative or not, set before or after) under random histories of readings and changes; all splitter/aggregator combinations through '
        'every constructor; and the information of real command lines (as C13). Non-trivial: information with a parallelizer was read; '
        'counted by distinct history or line')
ASSUMPTIONS = ['parallelizers are compared through their accessors and structural dumps of their parts']
REQUIRED = ['oracle_decisions', 'refused_combinations', 'accepted_combinations', 'inferred_unwrap', 'readings', 'commutative_histories', 'repeated', 'real_lines',
            'real_commutative', 'defaults']
BATCH = 100
AGG = {'concat': lambda: A.make_aggregator_spec_concatenate(), 'adjm': lambda: A.make_aggregator_spec_adj_lines_merge(),
       'adjs': lambda: A.make_aggregator_spec_adj_lines_seq(),
       'adjf': lambda: A.make_aggregator_spec_adj_lines_func_from_string_representation('fun -a'),
       'adjf_t': lambda: A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers(),
       '2ary': lambda: A.make_aggregator_spec_custom_2_ary_from_string_representation('agg', is_implemented=True),
       '2ary_t': lambda: A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(is_implemented=True),
       'nary': lambda: A.make_aggregator_spec_custom_n_ary_from_string_representation('agg'),
       'nary_t': lambda: A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(), 'none': lambda: None}
MAP = {'seq': lambda: M.make_mapper_spec_seq(), 'custom': lambda: M.make_mapper_spec_custom('m', is_implemented=True),
       'string': lambda: M.make_mapper_spec_custom_from_string_representation('sort -m'), 'none': lambda: None}
MAKE = {'indiv': P.make_parallelizer_indiv_files, 'rr': P.make_parallelizer_round_robin, 'consec': P.make_parallelizer_consec_chunks}
INFOS = [None] + list(Info)


def cases(ctx):
    rng = ctx.rng()
    for a in AGG:
        for m in MAP:
            for s in MAKE:
                for i in range(len(INFOS)):
                    yield ['combine', a, m, s, i, rng.randint(0, 2)]
    for _ in range(ctx.n(20000, 800000)):
        yield ['history', rng.randrange(1 << 40)]
    for cmd in c13.CMDS:
        for fl in gen.pairs(cmd):
            yield ['line', c13.line_of(rng, cmd, fl)]
    for _ in range(ctx.n(6000, 200000)):
        cmd = rng.choice(c13.CMDS)
        yield ['line', c13.line_of(rng, cmd, gen.rand_flags(rng, cmd, 5))]


def parts(p):
    sp, kind, aux = partable.kind(p)
    s = p.get_splitter()
    if not sp:
        sp = 'indiv' if dump(s) == dump(S.make_splitter_indiv_files()) else '?'
    return sp, dump(p.get_mapper_spec()), dump(p.get_aggregator_spec()), dump(p.info_splitter_mapper), aux


def infer(stated, comm):
    return stated + [('unwrap',) + p[1:] for p in stated if comm and p[0] == 'consec']


def evaluate(case, mon):
    if case[0] == 'combine':
        return combine(case, mon)
    if case[0] == 'line':
        return real(case, mon)
    rng = random.Random(case[1])
    ps = [one(rng) for _ in range(rng.randint(0, 5))]
    if ps and rng.random() < .3:        # one several times: the same object or an equal one
        p = rng.choice(ps)
        ps.insert(rng.randint(0, len(ps)), rng.choice([p, copy.deepcopy(p)]))
        mon.count('repeated')
    comm = rng.random() < .4
    n0 = rng.randint(0, len(ps))
    info = ParallelizabilityInfo(list(ps[:n0]) if n0 or rng.random() < .5 else None, is_commutative=comm)
    stated, rest, hist = [parts(p) for p in ps[:n0]], ps[n0:], [('start', n0, comm)]
    before = [dump(p) for p in ps]
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(['append', 'comm', 'infer', 'infer', 'unpack', 'unpack', 'ruin'])
        hist.append(op)
        if op == 'append' and rest:
            p = rest.pop(0)
            info.append_to_parallelizer_list(p)
            stated.append(parts(p))
        elif op == 'comm':
            if rng.random() < .5:
                info.set_commutative()
                comm = True
        elif op == 'ruin':
            info.get_inferred_parallelizer_list().clear()
            info.unpack_info()[0].append('junk')
        want = infer(stated, comm)
        if op == 'infer':
            got = info.get_inferred_parallelizer_list()
        elif op == 'unpack':
            u = info.unpack_info()
            mon.check(len(u) == 3 and bool(u[2]) == comm and bool(u[1]) is False, lambda: f'unpacked {u[1:]}, commutative {comm}: {hist}')
            got = u[0]
        else:
            continue
        mon.count('readings')
        mon.count('inferred_unwrap', len(want) - len(stated))
        if not mon.check([parts(p) for p in got] == want, lambda: f'inferred list: {[partable.kind(p) for p in got]} from {[p[0] for p in stated]}, '
                                                                  f'commutative {comm}, history {hist}'):
            return
        mon.check([parts(p) for p in info.parallelizer_list] == stated, lambda: f'stated list changed: history {hist}')
    mon.check([dump(p) for p in ps] == before, lambda: f'reading changed a parallelizer: {hist}')
    if ps:
        mon.count('commutative_histories', int(comm))
        mon.nontrivial(case[1])
        mon.sample({'parallelizers': [partable.kind(p) for p in ps], 'history': repr(hist)})


def one(rng):
    while True:
        a, m, s = rng.choice(list(AGG)), rng.choice(list(MAP)), rng.choice(list(MAKE) + ['consec'] * 3)
        if s == 'rr' and (a.startswith('2') or a.startswith('n') and a != 'none'):
            continue
        p = MAKE[s](MAP[m](), AGG[a](), rng.choice(INFOS), rng.randint(0, 3))
        if s == 'consec' and rng.random() < .1:
            return P.make_parallelizer_round_robin_with_unwrap_from_other(p)
        return p


def combine(case, mon):
    _, a, m, s, i, aux = case
    admissible = s != 'rr' or a in ('none', 'concat', 'adjm', 'adjs', 'adjf', 'adjf_t')
    build = [lambda: MAKE[s](MAP[m](), AGG[a](), INFOS[i], aux),
             lambda: MAKE[s](mapper_spec=MAP[m](), aggregator_spec=AGG[a](), info_splitter_mapper=INFOS[i], info_mapper_aggregator=aux)]
    if a != 'none' and m != 'none':
        sp = {'indiv': S.make_splitter_indiv_files, 'rr': S.make_splitter_round_robin, 'consec': S.make_splitter_consec_chunks}[s]
        build.append(lambda: P.Parallelizer(sp(), MAP[m](), AGG[a](), INFOS[i], aux))
    mon.nontrivial(tuple(case))
    for b in build:
        try:
            p = b()
        except Exception as e:
            p = None
        if not mon.check((p is not None) == admissible, lambda: f'splitter {s} with aggregator {a} is {"refused" if p is None else "accepted"}'):
            continue
        mon.count('accepted_combinations' if admissible else 'refused_combinations')
        if p is None:
            continue
        got = parts(p)
        want = (s, dump((MAP[m]() or M.make_mapper_spec_seq())), dump(AGG[a]() or A.make_aggregator_spec_concatenate()),
                dump(INFOS[i] or Info.NO_ADD_INPUT), aux)
        mon.check(got == want, lambda: f'parts of {case}: {got}, expected {want}')
    if admissible and m == a == 'none' and i == 0:
        mon.count('defaults')
        p = MAKE[s]()
        mon.check(partable.kind(p)[1:] == ('concat', 0) and parts(p)[3] == dump(Info.NO_ADD_INPUT), lambda: f'defaults of {s}: {parts(p)}')
        st = pc.Setup('grep -v a f1')
        got = lower.view(p.get_actual_mapper(st.low, 50, 51, []))
        v = lower.view(st.low)
        mon.check(got['cmd'] == v['cmd'] and got['flags'] == v['flags'] and got['operands'] == [('arg', 'a'), ('var', 50)] and got['out'] == 51,
                  lambda: f'default mapper of {s}: {got}')
        mon.check(lower.view(p.get_actual_aggregator(st.low, [50, 51], 52))['cmd'] == 'cat', lambda: f'default aggregator of {s}')
    if s == 'consec':
        p = MAKE[s](MAP[m](), AGG[a](), INFOS[i], aux)
        before = parts(p)
        u = P.make_parallelizer_round_robin_with_unwrap_from_other(p)
        mon.check(parts(u) == ('unwrap',) + before[1:], lambda: f'unwrap variant: {parts(u)} of {before}')
        mon.check(parts(p) == before, lambda: f'making the unwrap variant changed the parallelizer: {case}')


def real(case, mon):
    line = case[1]
    par = api.par_info(api.parse(line))
    if par is None:
        return
    mon.count('real_lines')
    stated, comm = [parts(p) for p in par.parallelizer_list], bool(par.is_commutative)
    mon.count('real_commutative', int(comm))
    for p in par.parallelizer_list:
        sp, kind, _ = partable.kind(p)
        mon.check(sp in ('consec', 'rr', 'unwrap') or parts(p)[0] == 'indiv', lambda: f'splitter: {line!r}')
        mon.check(sp != 'rr' or kind in ('concat', 'adjm', 'adjs', 'adjf'), lambda: f'round robin with {kind}: {line!r}')
    want = infer(stated, comm)
    for k in range(3):
        got = [parts(p) for p in (par.get_inferred_parallelizer_list() if k != 1 else par.unpack_info()[0])]
        mon.check(got == want, lambda: f'inferred list: {line!r} {[g[0] for g in got]}, stated {[g[0] for g in stated]}, commutative {comm}')
        mon.count('inferred_unwrap', len(want) - len(stated))
        mon.count('readings')
    if stated:
        mon.nontrivial(line)
