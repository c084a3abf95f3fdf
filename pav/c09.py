"""C09: consecutive-chunk parallelization preserves the output."""
from . import parcheck as pc, real, lower
from .parcheck import Broken

RULE = ('every parallelizable command x flags/options (none, singles, pairs, random lists) in random spellings, on texts of 2-10 lines (ties, '
        'blank lines, numbers, separators), cut at every line boundary and into random 3-5 chunks; each offered implemented '
        'consecutive-chunks parallelizer is executed (mapper per chunk, aggregator left, right and balanced) with the real tools and compared '
        'with the real sequential run. Non-trivial: a parallelizer was executed on at least two non-empty chunks and the sequential output is '
        'not empty; counted by distinct (line, text, cut)')
ASSUMPTIONS = ['custom_sort and custom_tr behave as sort and tr; set_diff, col and the bigram commands are replaced by models',
               'chunks are not empty; xargs runs one command per item', 'recorded findings (cut -z, xargs with several items per command, '
               'sed scripts with line numbers, state or file names) are not generated']
REQUIRED = ['oracle_decisions', 'scanned', 'surprising', 'parallelizers_run', 'two_cuts', 'multi_cuts', 'concat_aggregations', 'binary_aggregations', 'aux_aggregations',
            'nonempty_outputs', 'cmd_grep', 'cmd_cut', 'cmd_tr', 'cmd_sed', 'cmd_sort', 'cmd_xargs', 'cmd_custom_sort', 'cmd_bigrams_aux']
BATCH = 6


def cases(ctx):
    for rng, cmd, line, n in pc.invocations(ctx, 'c09', ctx.n(10, 30), ctx.n(4, 12), ctx.n(.6, 6), ctx.n(1500, 40000)):
        yield chunks(rng, cmd, line, n)
    yield from pc.scans(ctx, ctx.n(200, 6000), ctx.n(1, 10))


def chunks(rng, cmd, line, n):
    text = pc.content(rng, cmd, rng.randint(4, 8) if n < 2 else rng.randint(3, 5), line)
    k = len(text)
    cuts = [[i] for i in range(1, k)]
    if n > 1:
        cuts = rng.sample(cuts, min(2, len(cuts)))
    for _ in range(2 if n < 2 else 1):
        cuts.append(sorted(rng.sample(range(1, k), min(k - 1, rng.randint(2, 4)))))
    return ['chunks', line, text, cuts]


def evaluate(case, mon):
    if case[0] == 'scan':
        for x in pc.surprising(mon, *case[1:]):
            mon.case = chunks(*x)
            evaluate(mon.case, mon)
        return
    _, line, text, cuts = case
    st = pc.Setup(line)
    if not st.ok:
        mon.count('not_applicable')
        return
    pars = [p for p in st.parallelizers if p.get_splitter().is_splitter_consec_chunks() and p.are_all_parts_implemented()]
    if not pars:
        mon.count('not_offered')
        return
    data = pc.enc(text)
    with real.Scratch() as s:
        m = pc.Machine(s, st.names)
        want, rc = pc.sequential(m, st, data)
        if rc > 1 or (rc and st.ws[0] not in ('grep',)):
            mon.count('sequential_fails')      # not an invocation that works; nothing to preserve
            return
        mon.count('cmd_' + st.ws[0])
        mon.count('nonempty_outputs', int(bool(want)))
        for p in pars:
            mon.count('parallelizers_run')
            sp = p.get_aggregator_spec()
            for c in cuts:
                pieces = pc.cut(text, c)
                shapes = ['left']
                if sp.is_aggregator_spec_custom_2_ary():
                    mon.count('aux_aggregations' if p.get_info_mapper_aggregator() else 'binary_aggregations')
                    if len(pieces) > 2:
                        shapes = ['left', 'right', 'balanced']
                else:
                    mon.count('concat_aggregations')
                mon.count('two_cuts' if len(pieces) == 2 else 'multi_cuts')
                try:
                    parts = pc.map_pieces(m, st, p, pieces)
                    for sh in shapes:
                        got = pc.aggregate(m, st, p, parts, sh)
                        mon.check(got == want, lambda: f'output differs: {line!r} on {data!r} cut at {c} ({sh}): {got!r}, sequentially {want!r}')
                except (Broken, AssertionError) as e:
                    mon.check(False, f'cannot be executed: {line!r} cut at {c}: {type(e).__name__} {e}')
                    return
                if want:
                    mon.nontrivial((line, data, tuple(c)))
        if want and len(pieces) > 2:
            mon.sample({'line': line, 'text': data.decode('latin1'), 'cuts': cuts, 'output': want.decode('latin1')[:200], 'runs': m.runs})
