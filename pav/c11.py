"""C11: mappers and aggregators are wired to exactly the given streams."""
from . import api, gen, iocheck, lower, parcheck as pc, partable, words, factory

RULE = ('every parallelizable command x flags/options x operands with exactly one streaming input and output: the mapper and the aggregator '
        'of every offered implemented parallelizer are built for random stream numbers (fresh ones and reused original ones, 1-5 inputs for '
        'concatenation) and compared word by word with a reference construction; plus parallelizers put together from random custom, '
        'string and transformer specifications. Non-trivial: a mapper or aggregator was built; counted by distinct (line, kind, streams)')
ASSUMPTIONS = ['stream numbers given are distinct and, unless they name the replaced stream, new']
REQUIRED = ['oracle_decisions', 'seq_mappers', 'custom_mappers', 'aux_mappers', 'cat_aggregators', 'transformer_aggregators', 'string_aggregators', 'adjf_aggregators',
            'aux_aggregators', 'reused_streams', 'explicit_streams', 'option_streams', 'factory_built', 'wrong_numbers']
BATCH = 60


def cases(ctx):
    rng = ctx.rng()
    for cmd in pc.CMDS:
        for fl in gen.pairs(cmd):
            for _ in range(ctx.n(8, 30) if len(fl) < 2 else ctx.n(2, 6)):
                yield ['wire', line_of(rng, cmd, fl), rng.randrange(1 << 30)]
    for _ in range(ctx.n(10000, 300000)):
        cmd = rng.choice(pc.CMDS)
        yield ['wire', line_of(rng, cmd, gen.rand_flags(rng, cmd, 5)), rng.randrange(1 << 30)]


def line_of(rng, cmd, fl):
    ops = pc.operands(rng, cmd, [k for k, _ in fl])
    return pc.cmd_line(rng, cmd, fl, ops)


def evaluate(case, mon):
    import random
    _, line, seed = case
    rng = random.Random(seed)
    st = pc.Setup(line)
    if not st.ok:
        mon.count('not_applicable')
        return
    low, names, nxt = lower.lower(st.cio, rng.choice([0, 1, 3, 40]))
    v = lower.view(low)
    i0, o0 = lower.streams(v, 'STREAM_INPUT')[0], lower.streams(v, 'STREAM_OUTPUT')[0]
    mon.count('explicit_streams', int(v['in'] is None))
    mon.count('option_streams', int(any(f[0] == 'option' and f[2] == ('var', o0) for f in v['flags'])))
    # the offered ones: what the mapper and the aggregator must be is known for each command
    for p in st.parallelizers:
        if not p.are_all_parts_implemented():
            continue
        k = partable.kind(p)
        mname = {'bigrams_aux': 'bigram_aux_map'}.get(v['cmd']) if k[2] else None
        aname = {'bigrams_aux': 'bigram_aux_reduce', 'alt_bigrams_aux': 'alt_bigram_aux_reduce'}.get(v['cmd'])
        mflags = [] if v['cmd'] in ('bigrams_aux', 'alt_bigrams_aux') else v['flags']
        fresh = Fresh(rng, v, i0, o0, mon)
        check_mapper(mon, line, p, low, v, i0, o0, mname or v['cmd'], mflags, mname is not None, k[2], fresh)
        check_aggregator(mon, line, p, low, v, i0, o0, k, ('string', aname, []) if aname else 'sort', fresh)
    # put together from random specifications
    for _ in range(2):
        p, want = factory.parallelizer(rng, v)
        fresh = Fresh(rng, v, i0, o0, mon)
        mon.count('factory_built')
        if want['aux'] == 0 or (all(o[0] == 'var' for o in v['operands']) and not any(f[0] == 'option' and f[2][0] == 'var' for f in v['flags'])):
            check_mapper(mon, line, p, low, v, i0, o0, want['mapper_cmd'] or v['cmd'], want['mapper_flags'], want['custom'], want['aux'], fresh)
        check_aggregator(mon, line, p, low, v, i0, o0, (None, want['agg_kind'], want['aux']), want['agg'], fresh)
    mon.sample({'line': line, 'invocation': repr(v)[:300], 'parallelizers': [partable.kind(p) for p in st.parallelizers]})


class Fresh:
    """stream numbers: new ones, or (sometimes) the replaced original one"""
    def __init__(self, rng, v, i0, o0, mon):
        self.rng, self.used, self.mon = rng, set(v['access']), mon

    def one(self, old=None):
        if old is not None and self.rng.random() < .2:
            self.mon.count('reused_streams')
            return old
        while True:
            n = self.rng.choice([0, self.rng.randint(0, 60), self.rng.randint(0, 10 ** 6)])
            if n not in self.used:
                self.used.add(n)
                return n


def swap(w, f, t):
    return ('var', t) if w == ('var', f) else w


def subst(v, f, t):
    return {**v, 'flags': [x if x[0] == 'flag' else (x[0], x[1], swap(x[2], f, t)) for x in v['flags']],
            'operands': [swap(x, f, t) for x in v['operands']], 'in': t if v['in'] == f else v['in'], 'out': t if v['out'] == f else v['out'],
            'access': {(t if k == f else k): a for k, a in v['access'].items()}}


def stream_map(v):
    return {k: a for k, a in v['access'].items() if a in ('STREAM_INPUT', 'STREAM_OUTPUT')}


def check_access(mon, what, line, v, ins, outs):
    got = stream_map(v)
    want = {**{i: 'STREAM_INPUT' for i in ins}, **{o: 'STREAM_OUTPUT' for o in outs}}
    mon.check(got == want, lambda: f'{what} access map: {line!r} has streams {got}, expected {want}')
    for x in lower.occurring(v):
        mon.check(x in v['access'] and v['access'][x], lambda: f'{what} access map: {line!r} has no entry for {x}')


def check_mapper(mon, line, p, low, v, i0, o0, cmd, flags, custom, aux, fresh):
    i, o = fresh.one(i0), fresh.one(o0)
    auxs = [fresh.one() for _ in range(aux)]
    m = p.get_actual_mapper(low, i, o, list(auxs))
    if not mon.check(m is not None, f'no mapper: {line!r}'):
        return
    got = lower.view(m)
    mon.nontrivial((line, cmd, i, o, tuple(auxs)))
    if aux:
        mon.count('aux_mappers')
        want = {'cmd': cmd, 'flags': flags, 'operands': [('var', x) for x in [i, o] + auxs], 'in': None, 'out': None}
    else:
        mon.count('custom_mappers' if custom or cmd != v['cmd'] or flags != v['flags'] else 'seq_mappers')
        base = dict(v, cmd=cmd, flags=flags)
        want = subst(subst(base, i0, -7), o0, o)
        want = subst(want, -7, i)
    for f in ('cmd', 'flags', 'operands', 'in', 'out'):
        mon.check(got[f] == want[f], lambda: f'mapper {f}: {line!r} gives {got[f]!r}, expected {want[f]!r}')
    check_access(mon, 'mapper', line, got, [i], [o] + auxs)
    others = {k: a for k, a in v['access'].items() if a not in ('STREAM_INPUT', 'STREAM_OUTPUT') and k in lower.occurring(got)}
    mon.check(all(got['access'].get(k) == a for k, a in others.items()), lambda: f'mapper access of other variables: {line!r} {got["access"]}')
    mon.check(lower.view(low) == v, f'building a mapper changed the invocation: {line!r}')


def check_aggregator(mon, line, p, low, v, i0, o0, k, how, fresh):
    kind, aux = k[1], k[2]
    out = fresh.one(o0)
    if aux:
        f, s, auxo = fresh.one(), fresh.one(), [fresh.one() for _ in range(aux)]
        fa, sa = [fresh.one() for _ in range(aux)], [fresh.one() for _ in range(aux)]
        a = p.get_actual_2_ary_aggregator_with_aux(f, list(fa), s, list(sa), out, list(auxo))
        ins, outs = [f] + fa + [s] + sa, [out] + auxo
        mon.count('aux_aggregators')
        want = {'cmd': how[1], 'flags': how[2], 'operands': [('var', x) for x in ins + outs], 'in': None, 'out': None}
    else:
        n = fresh.rng.randint(1, 5) if kind in ('concat', 'nary') else 1 if kind == 'adjf' else 2
        mon.count('adjf_aggregators', int(kind == 'adjf'))
        ins = [fresh.one(i0 if j == 0 else None) for j in range(n)]
        given = list(ins)
        a = p.get_actual_aggregator(low, given, out)
        outs = [out]
        mon.check(given == ins, f'building an aggregator changed the list of inputs: {line!r}')
        want = {'cmd': v['cmd'], 'flags': None, 'operands': [('var', x) for x in ins], 'in': None, 'out': out}
        if kind == 'concat':
            mon.count('cat_aggregators')
            want['cmd'], want['flags'] = 'cat', []
        elif how[0] == 'string':
            mon.count('string_aggregators')
            want['cmd'], want['flags'] = how[1], how[2]
        elif how[0] == 'flags':
            mon.count('transformer_aggregators')
            want['flags'] = [x for x in how[1](v) if not (x[0] == 'option' and x[2][0] == 'var' and x[2][1] in stream_map(v))]
    if not mon.check(a is not None, f'no aggregator: {line!r}'):
        return
    got = lower.view(a)
    mon.nontrivial((line, kind, tuple(ins), tuple(outs)))
    if want['flags'] is None:      # sort
        mon.count('transformer_aggregators')
        fl = got['flags']
        keep = [x for x in v['flags'] if x[1] in partable.SORT_KEEP]
        mon.check(fl.count(('flag', '-m')) == 1, lambda: f'sort aggregator does not merge: {line!r} {fl}')
        mon.check([x for x in fl if x[1] in partable.SORT_KEEP] == keep, lambda: f'sort aggregator orders differently: {line!r} {fl}, expected {keep}')
        rest = [x for x in fl if x != ('flag', '-m') and x[1] not in partable.SORT_KEEP]
        mon.check(all(x[1] in partable.SORT_HARMLESS and x in v['flags'] for x in rest), lambda: f'sort aggregator has other flags: {line!r} {rest}')
        want['flags'] = fl
    for f in ('cmd', 'flags', 'operands', 'in', 'out'):
        mon.check(got[f] == want[f], lambda: f'aggregator {f}: {line!r} gives {got[f]!r}, expected {want[f]!r}')
    wrong_number(mon, line, p, low, kind, aux, fresh)
    mon.check(a.is_aggregator_concatenate() == (kind == 'concat'), lambda: f'aggregator is_aggregator_concatenate: {line!r}')
    check_access(mon, 'aggregator', line, got, ins, outs)
    mon.check(lower.view(low) == v, f'building an aggregator changed the invocation: {line!r}')


def wrong_number(mon, line, p, low, kind, aux, fresh):
    """as many streams as the kind of aggregator cannot take: refused, or all of them used"""
    if kind in ('concat', 'nary') and not aux:
        return
    if aux:
        n = [aux, aux, aux]
        n[fresh.rng.randrange(3)] += fresh.rng.choice([1, 2, -1])
        fa, sa, auxo = [[fresh.one() for _ in range(k)] for k in n]
        ins, outs = [fresh.one()] + fa, [fresh.one()] + auxo
        ins += [fresh.one()] + sa
        make = lambda: p.get_actual_2_ary_aggregator_with_aux(ins[0], list(fa), ins[-len(sa) - 1], list(sa), outs[0], list(auxo))
    else:
        ins, outs = [fresh.one() for _ in range(fresh.rng.choice([1, 3, 4] if kind == '2ary' else [2, 3]))], [fresh.one()]
        make = lambda: p.get_actual_aggregator(low, list(ins), outs[0])
    mon.count('wrong_numbers')
    try:
        a = make()
    except Exception:
        return
    if a is not None:
        got = lower.view(a)
        mon.check([x[1] for x in got['operands'] if x[0] == 'var'] == ins + (outs if aux else []),
                  lambda: f'aggregator of another number of streams: {line!r} from {ins} to {outs} gives {got["operands"]}')
