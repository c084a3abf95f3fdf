"""C10: round-robin parallelization preserves the output."""
from . import parcheck as pc, real, lower
from .parcheck import Broken

RULE = ('as C09, with texts dealt out in blocks of random sizes: plain round-robin parallelizers run their mapper on each block and the '
        'results are put back in block order through the aggregator; with-unwrap parallelizers run it on what each of 2-4 workers received '
        '(random assignments of blocks), aggregated in random worker order. Non-trivial: a parallelizer was executed on at least two '
        'non-empty blocks and the sequential output is not empty; counted by distinct (line, text, dealing)')
ASSUMPTIONS = ['as C09']
REQUIRED = ['oracle_decisions', 'scanned', 'surprising', 'plain_runs', 'unwrap_runs', 'blocks', 'nonempty_outputs', 'cmd_grep', 'cmd_cut', 'cmd_tr', 'cmd_sed', 'cmd_sort',
            'cmd_xargs', 'cmd_custom_sort', 'cmd_custom_tr']
BATCH = 6


def cases(ctx):
    for rng, cmd, line, n in pc.invocations(ctx, 'c10', ctx.n(10, 30), ctx.n(4, 12), ctx.n(.6, 6), ctx.n(1500, 40000)):
        yield deal(rng, cmd, line, n)
    yield from pc.scans(ctx, ctx.n(200, 6000), ctx.n(1, 10))


def deal(rng, cmd, line, n):
    text = pc.content(rng, cmd, rng.randint(4, 9), line)
    k = len(text)
    deals = []
    for _ in range(3 if n < 2 else 2):
        size = rng.choice([1, 1, 2, 3])
        cuts = list(range(size, k, size)) if rng.random() < .7 else sorted(rng.sample(range(1, k), rng.randint(1, k - 1)))
        nb = len(cuts) + 1
        w = rng.randint(2, 4)
        assign = [i % w for i in range(nb)] if rng.random() < .5 else [rng.randrange(w) for _ in range(nb)]
        order = list(range(w))
        if rng.random() < .5:
            rng.shuffle(order)
        deals.append([cuts, assign, order])
    return ['deal', line, text, deals]


def evaluate(case, mon):
    if case[0] == 'scan':
        for x in pc.surprising(mon, *case[1:]):
            mon.case = deal(*x)
            evaluate(mon.case, mon)
        return
    _, line, text, deals = case
    st = pc.Setup(line)
    if not st.ok:
        mon.count('not_applicable')
        return
    plain = [p for p in st.parallelizers if p.get_splitter().is_splitter_round_robin() and p.are_all_parts_implemented()]
    unwrap = [p for p in st.parallelizers if p.get_splitter().is_splitter_round_robin_with_unwrap_flag() and p.are_all_parts_implemented()]
    if not plain and not unwrap:
        mon.count('not_offered')
        return
    data = pc.enc(text)
    with real.Scratch() as s:
        m = pc.Machine(s, st.names)
        want, rc = pc.sequential(m, st, data)
        if rc > 1 or (rc and st.ws[0] not in ('grep',)):
            mon.count('sequential_fails')
            return
        mon.count('cmd_' + st.ws[0])
        mon.count('nonempty_outputs', int(bool(want)))
        try:
            for cuts, assign, order in deals:
                pieces = pc.cut(text, cuts)
                mon.count('blocks', len(pieces))
                for p in plain:
                    mon.count('plain_runs')
                    parts = pc.map_pieces(m, st, p, pieces)
                    got = pc.aggregate(m, st, p, parts, 'left')
                    mon.check(got == want, lambda: f'output differs: {line!r} on {data!r} in blocks {cuts}: {got!r}, sequentially {want!r}')
                for p in unwrap:
                    mon.count('unwrap_runs')
                    bags = [b''.join(x for x, a in zip(pieces, assign) if a == w) for w in order]
                    bags = [b for b in bags if b]
                    parts = pc.map_pieces(m, st, p, bags)
                    got = pc.aggregate(m, st, p, parts, 'balanced' if len(cuts) % 2 else 'left')
                    mon.check(got == want, lambda: f'output differs: {line!r} on {data!r} dealt {cuts} {assign} {order}: {got!r}, sequentially {want!r}')
                if want and len(pieces) > 1:
                    mon.nontrivial((line, data, tuple(cuts), tuple(assign), tuple(order)))
        except (Broken, AssertionError) as e:
            mon.check(False, f'cannot be executed: {line!r}: {type(e).__name__} {e}')
            return
        if want:
            mon.sample({'line': line, 'text': data.decode('latin1'), 'deals': deals, 'output': want.decode('latin1')[:200], 'runs': m.runs})
