"""C13: a parallelizer claims to be implemented exactly if it delivers."""
import random
from . import api, gen, lower, parcheck as pc, partable, words, factory
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, AggregatorSpec as A

RULE = ('every command annotated for parallelism x flags/options (none, singles, pairs, random lists) x operands with one streaming input and '
        'output: for each parallelizer read from the information (stated and inferred), the claim is compared with what building its mapper and '
        'its aggregator (for the number of inputs and auxiliary streams its kind asks for) yields; plus parallelizers put together from '
        'implemented and unimplemented parts. Non-trivial: a parallelizer was offered; counted by distinct (line, parallelizer)')
ASSUMPTIONS = ['a command name is a placeholder if it says so']
REQUIRED = ['oracle_decisions', 'claimed', 'not_claimed', 'aux_claimed', 'combinations', 'combinations_claimed', 'kind_concat', 'kind_adjm', 'kind_adjs',
            'kind_adjf', 'kind_2ary', 'kind_nary', 'round_robin_made', 'round_robin_refused']
BATCH = 60
CMDS = pc.CMDS + ['test_one', 'test_two']
AGGS = ['concat', 'adjm', 'adjs', 'adjf_s', 'adjf_t', 'adjf_T', '2ary_s', '2ary_t', 'nary_s', 'nary_t', '2ary_S', '2ary_T', 'nary_S', 'nary_T', 'none']
MAPS = ['none', 'seq', 'custom', 'Custom', 'string', 'String']


def cases(ctx):
    rng = ctx.rng()
    for cmd in CMDS:
        for fl in gen.pairs(cmd):
            for _ in range(ctx.n(8, 30) if len(fl) < 2 else ctx.n(2, 6)):
                yield ['impl', line_of(rng, cmd, fl)]
    for _ in range(ctx.n(10000, 300000)):
        cmd = rng.choice(CMDS)
        yield ['impl', line_of(rng, cmd, gen.rand_flags(rng, cmd, 5))]
    for a in AGGS:
        for m in MAPS:
            for line in ['sort -n', 'grep a f1', 'tr a b', 'sort -o out1 f1', 'uniq f1 f2', 'cut -f 1 -']:
                for aux in (0, 1, 2):
                    yield ['combine', line, a, m, aux]


def line_of(rng, cmd, fl):
    keys = [k for k, _ in fl]
    ops = pc.operands(rng, cmd, keys)
    if cmd == 'tr' and rng.random() < .6:
        n = 1 if '-d' in keys and '-s' not in keys else 2
        ops = [rng.choice(gen.TR_SETS + ['[:space:]', '\\n', '\n']) for _ in range(n)]
    return pc.cmd_line(rng, cmd, fl, ops)


def evaluate(case, mon):
    st = pc.Setup(case[1])
    if not st.ok:
        mon.count('not_applicable')
        return
    if case[0] == 'impl':
        for j, p in enumerate(list(st.parallelizers) + list(st.par.parallelizer_list)):
            mon.nontrivial((case[1], j, partable.kind(p)))
            judge(mon, case[1], st, p)
        return
    _, line, a, m, aux = case
    make_a = {'concat': A.make_aggregator_spec_concatenate, 'adjm': A.make_aggregator_spec_adj_lines_merge, 'adjs': A.make_aggregator_spec_adj_lines_seq,
              'adjf_s': lambda: A.make_aggregator_spec_adj_lines_func_from_string_representation('PLACEHOLDER:x y'),
              'adjf_t': lambda: A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers(),
              'adjf_T': lambda: A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers(is_implemented=True),
              '2ary_s': lambda: A.make_aggregator_spec_custom_2_ary_from_string_representation('PLACEHOLDER:x'),
              '2ary_S': lambda: A.make_aggregator_spec_custom_2_ary_from_string_representation('agg', is_implemented=True),
              '2ary_t': lambda: A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(),
              '2ary_T': lambda: A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(is_implemented=True),
              'nary_s': lambda: A.make_aggregator_spec_custom_n_ary_from_string_representation('PLACEHOLDER'),
              'nary_S': lambda: A.make_aggregator_spec_custom_n_ary_from_string_representation('agg', is_implemented=True),
              'nary_t': lambda: A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(),
              'nary_T': lambda: A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(is_implemented=True), 'none': lambda: None}[a]
    make_m = {'none': lambda: None, 'seq': M.make_mapper_spec_seq, 'custom': lambda: M.make_mapper_spec_custom('PLACEHOLDER:m'),
              'Custom': lambda: M.make_mapper_spec_custom('mm', is_implemented=True),
              'string': lambda: M.make_mapper_spec_custom_from_string_representation('PLACEHOLDER:m'),
              'String': lambda: M.make_mapper_spec_custom_from_string_representation('mm', is_implemented=True)}[m]
    if aux and a not in ('2ary_s', '2ary_S'):
        return
    if aux and not all(not isinstance(o, api.ArgStringType) for o in st.cio.operand_list):
        return
    if (aux or m in ('string', 'String')) and any(f.get_name() == '-o' for f in st.cio.flag_option_list):
        return                                   # the mapper would have no output
    mon.count('combinations')
    p = P.make_parallelizer_consec_chunks(make_m(), make_a(), info_mapper_aggregator=aux)
    # the other ways to split: round robin deals out the lines without saying which came first, so only aggregations
    # which work on the lines as they are can undo it; any other combination is refused
    allowed = a in ('concat', 'none') or a.startswith('adj')
    try:
        rr = P.make_parallelizer_round_robin(make_m(), make_a(), info_mapper_aggregator=aux)
    except Exception:
        rr = None
    mon.count('round_robin_made' if allowed else 'round_robin_refused')
    mon.check((rr is not None) == allowed, lambda: f'round robin with mapper {m}, aggregator {a}: {"refused" if rr is None else "not refused"}')
    others = [P.make_parallelizer_indiv_files(make_m(), make_a(), info_mapper_aggregator=aux),
              P.make_parallelizer_round_robin_with_unwrap_from_other(p)] + ([rr] if rr is not None else [])
    for q, sp in zip(others, ('', 'unwrap', 'rr')):
        mon.check(partable.kind(q) == (sp,) + partable.kind(p)[1:], lambda: f'kind: mapper {m}, aggregator {a}: {partable.kind(q)}')
        judge(mon, line, st, q)
    mon.check(partable.kind(p)[0] == 'consec', lambda: f'deriving the unwrapping parallelizer changed the one it was derived from: {m} {a}')
    claim = a in ('concat', 'none') or a[-1] in 'ST'
    claim = claim and m in ('none', 'seq', 'Custom', 'String')
    mon.count('combinations_claimed', int(claim))
    mon.check(bool(p.are_all_parts_implemented()) == claim, lambda: f'claim: mapper {m}, aggregator {a}: {p.are_all_parts_implemented()}')
    judge(mon, line, st, p)
    mon.nontrivial(tuple(case))


def judge(mon, line, st, p):
    sp, kind, aux = partable.kind(p)
    mon.check(sp in ('consec', 'rr', 'unwrap', '') and kind in ('concat', 'adjm', 'adjs', 'adjf', '2ary', 'nary'), lambda: f'kind: {line!r}: {sp} {kind}')
    mon.check(isinstance(aux, int) and aux >= 0, lambda: f'auxiliary streams: {aux!r}')
    claim = p.are_all_parts_implemented()
    mon.count('claimed' if claim else 'not_claimed')
    mon.count('kind_' + kind)
    auxs = [st.fresh() for _ in range(aux)]
    i, o = st.fresh(), st.fresh()
    ms, ag = p.get_mapper_spec(), p.get_aggregator_spec()
    try:
        m = p.get_actual_mapper(st.low, i, o, list(auxs))
    except AssertionError as e:
        mon.fail(f'building the mapper raised: {line!r} {kind} aux {aux}: {e!r}')
        return
    n = 1 if kind == 'adjf' else 2
    if aux:
        mon.count('aux_claimed', int(bool(claim)))
        f, fa, s, sa, ao = st.fresh(), [st.fresh() for _ in range(aux)], st.fresh(), [st.fresh() for _ in range(aux)], [st.fresh() for _ in range(aux)]
        a = p.get_actual_2_ary_aggregator_with_aux(f, fa, s, sa, o, ao)
    else:
        a = p.get_actual_aggregator(st.low, [st.fresh() for _ in range(n)], o)
    mon.check(bool(claim) == (m is not None and a is not None),
              lambda: f'claims {"" if claim else "not "}to be implemented: {line!r} {sp} {kind}, but mapper is {short(m)}, aggregator is {short(a)}')
    mon.check(bool(ms.is_implemented) == (m is not None), lambda: f'mapper claim {ms.is_implemented}: {line!r} {short(m)}')
    mon.check(bool(ag.is_implemented) == (a is not None), lambda: f'aggregator claim {ag.is_implemented}: {line!r} {short(a)}')
    for x, part in ((m, 'mapper'), (a, 'aggregator')):
        if x is not None:
            mon.check(x.cmd_name and 'placeholder' not in x.cmd_name.lower(), lambda: f'{part} is a placeholder: {line!r} {x.cmd_name!r}')
    if m is not None:
        v = lower.view(m)
        mon.check(lower.streams(v, 'STREAM_OUTPUT') == [o] + auxs or not aux and lower.streams(v, 'STREAM_OUTPUT') == [o],
                  lambda: f'mapper writes {lower.streams(v, "STREAM_OUTPUT")}, asked for {[o] + auxs}: {line!r}')
        for bad in (aux + 1, aux - 1):
            if bad >= 0:
                try:
                    r = p.get_actual_mapper(st.low, i, o, [st.fresh() for _ in range(bad)])
                    mon.check(r is None, lambda: f'mapper with {bad} instead of {aux} auxiliary streams: {line!r}')
                except AssertionError:
                    mon.check(True, '')
    if a is not None and aux:
        v = lower.view(a)
        mon.check(len(lower.streams(v, 'STREAM_INPUT')) == 2 * aux + 2 and len(lower.streams(v, 'STREAM_OUTPUT')) == aux + 1,
                  lambda: f'aggregator reads or writes another number of streams than {aux}: {line!r} {v}')
    mon.sample({'line': line, 'kind': [sp, kind, aux], 'claim': bool(claim), 'mapper': short(m), 'aggregator': short(a)})


def short(c):
    return None if c is None else c.cmd_name
