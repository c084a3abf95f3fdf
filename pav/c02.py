"""C02: equal annotations for equivalent spellings; different flags never conflated."""
from . import spec, gen, words, api
from .core import dump

RULE = ('multisets of flags/options (all singles and pairs, random longer ones) with operands, each rendered in several random equivalent '
        'spellings (aliases, clusters, attached arguments, quoting); results are compared as deep structural dumps; plus all pairs of '
        'spellings of different flags/options per command. Non-trivial: the spellings differ as word lists')
ASSUMPTIONS = ['aliases are those of optspec.json; a cluster that is itself a listed spelling (cat -vE for -e) is not used as a cluster']
REQUIRED = ['oracle_decisions', 'pairs_compared', 'info_compared', 'par_compared', 'distinct_pairs']
BATCH = 40


def cases(ctx):
    rng = ctx.rng()
    cmds = list(dict.fromkeys(list(spec.CMDS) + spec.ANNOTATED_IO))
    for cn in cmds:
        yield ['distinct', cn]
    n = ctx.n(2, 6)
    for cn in cmds:
        for fl in gen.pairs(cn):
            ks = [k for k, _ in fl]
            ops = gen.operands(rng, cn, ks)
            yield case(rng, cn, fl, ops, n if len(fl) > 1 else 5)
    for _ in range(ctx.n(9000, 400000)):
        cn = rng.choice(cmds)
        fl = gen.rand_flags(rng, cn, 5)
        yield case(rng, cn, fl, gen.operands(rng, cn, [k for k, _ in fl]), n)


def case(rng, cn, fl, ops, n):
    base = gen.canonical_words(cn, fl, ops)
    var = []
    for i in range(n):
        w = gen.spell(rng, cn, fl, ops, style=[None, 'long', 'short', None][i % 4])
        var.append([w, words.line_of(rng, w)])
    return ['same', [base, words.line_of(rng, base, 'single')], var]


def results(line):
    inv = api.parse(line)
    info, cio = api.applied(inv)
    par = api.par_info(inv)
    return (api.view_inv(inv), dump(inv), dump(info), dump(cio), dump(par),
            dump(None if par is None else par.unpack_info()))


def evaluate(case, mon):
    if case[0] == 'distinct':
        c = gen.cmd_of(case[1])
        seen = {}
        for g in c.groups:
            for n in g.names:
                cmd, fl, ops = api.view_inv(api.parse(words.line_of(None, [c.name, n] + (['7'] if g.is_option else []), 'single')))
                if mon.check(len(fl) == 1 and not ops and len(fl[0]) == 1 + g.is_option,
                             lambda: f'spelling not recognised: {c.name} {n} -> {fl} {ops}'):
                    seen.setdefault(g.id, set()).add(fl[0][0])
        ids = list(seen)
        for i, a in enumerate(ids):
            mon.check(len(seen[a]) == 1, lambda: f'aliases differ: {c.name} {a} has several canonical names {seen[a]}')
            for b in ids[i + 1:]:
                mon.count('distinct_pairs')
                mon.check(not (seen[a] & seen[b]), lambda: f'conflated: {c.name}: {a} and {b} both parse to {seen[a] & seen[b]}')
        return
    _, (bw, bl), var = case
    base = results(bl)
    for w, l in var:
        r = results(l)
        if w != bw:
            mon.nontrivial((bw, w))
        mon.count('pairs_compared')
        mon.count('info_compared', int(base[2] != ('NoneType', None)))
        mon.count('par_compared', int(base[4] != ('NoneType', None)))
        mon.check(r[0] == base[0] and r[1] == base[1], lambda: f'parsed differently: {bl!r} -> {base[0]!r}; {l!r} -> {r[0]!r}')
        mon.check(r[2] == base[2] and r[3] == base[3], lambda: f'input-output information differs: {bl!r} vs {l!r}')
        mon.check(r[4] == base[4] and r[5] == base[5], lambda: f'parallelizability information differs: {bl!r} vs {l!r}')
    if len(bw) > 4:
        mon.sample([bl] + [l for _, l in var])
